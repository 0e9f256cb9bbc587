//! Element types: an instrumented one whose every operation goes through the
//! seam, and the built-in integers.

use crate::hook::{self, hit};
use normalize_interval::normalize::Finite;
use serde::de::{DeserializeOwned, Error as _};
use serde::ser::Error as _;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering as AO};

pub trait Elem:
    Ord + Clone + Finite + Hash + fmt::Debug + Serialize + DeserializeOwned + 'static
{
    const NAME: &'static str;
    /// The element `ix` steps above the minimum.
    fn mk(ix: u128) -> Self;
    fn ix(&self) -> u128;
    fn max_ix() -> u128;
    const HOOKED: bool;
}

static SIZE: AtomicU32 = AtomicU32::new(4);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
static LIVE_OVER: AtomicI64 = AtomicI64::new(0);

pub fn set_size(n: usize) { SIZE.store(n as u32, AO::SeqCst); }
pub fn size() -> usize { SIZE.load(AO::SeqCst) as usize }
pub fn live() -> i64 { LIVE.load(AO::SeqCst) }
pub fn reset_live() { LIVE.store(0, AO::SeqCst); LIVE_OVER.store(0, AO::SeqCst); }

const LOWEST: u32 = u32::MAX - 1;
const HIGHEST: u32 = u32::MAX;

/// Instrumented element over a universe of 1 to 2^31 points, chosen per run.
pub struct El { v: u32, counted: bool }

impl El {
    fn fresh(v: u32) -> El {
        LIVE.fetch_add(1, AO::SeqCst);
        El { v, counted: true }
    }
    pub fn val(&self) -> u32 {
        match self.v {
            LOWEST => 0,
            HIGHEST => SIZE.load(AO::SeqCst) - 1,
            v => v,
        }
    }
}

impl Drop for El {
    fn drop(&mut self) {
        if self.counted { LIVE.fetch_sub(1, AO::SeqCst); }
    }
}

impl fmt::Debug for El {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{}", self.val()) }
}
impl Clone for El {
    fn clone(&self) -> El { hit(hook::CLONE); El::fresh(self.val()) }
}
impl PartialEq for El {
    fn eq(&self, o: &El) -> bool { hit(hook::EQ); self.val() == o.val() }
}
impl Eq for El {}
impl PartialOrd for El {
    fn partial_cmp(&self, o: &El) -> Option<Ordering> {
        hit(hook::CMP);
        Some(self.val().cmp(&o.val()))
    }
}
impl Ord for El {
    fn cmp(&self, o: &El) -> Ordering { hit(hook::CMP); self.val().cmp(&o.val()) }
}
impl Hash for El {
    fn hash<H: Hasher>(&self, h: &mut H) { hit(hook::HASH); h.write_u32(self.val()); }
}
impl Finite for El {
    const MINIMUM: El = El { v: LOWEST, counted: false };
    const MAXIMUM: El = El { v: HIGHEST, counted: false };
    fn pred(&self) -> Option<El> {
        hit(hook::PRED);
        let v = self.val();
        if v == 0 { None } else { Some(El::fresh(v - 1)) }
    }
    fn succ(&self) -> Option<El> {
        hit(hook::SUCC);
        let v = self.val();
        if v as usize + 1 >= size() { None } else { Some(El::fresh(v + 1)) }
    }
}
impl Serialize for El {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if hit(hook::SER) { return Err(S::Error::custom("element refused")); }
        s.serialize_u32(self.val())
    }
}
impl<'de> Deserialize<'de> for El {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<El, D::Error> {
        if hit(hook::DE) { return Err(D::Error::custom("element refused")); }
        let v = u32::deserialize(d)?;
        if (v as usize) < size() { Ok(El::fresh(v)) } else { Err(D::Error::custom("element out of range")) }
    }
}
// Printed in three chunks, so that a sink can fail between them.
impl fmt::Display for El {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if hit(hook::FMT) { return Err(fmt::Error); }
        f.write_str("<")?;
        write!(f, "{}", self.val())?;
        if hit(hook::FMT) { return Err(fmt::Error); }
        f.write_str(">")
    }
}
impl FromStr for El {
    type Err = String;
    fn from_str(s: &str) -> Result<El, String> {
        if hit(hook::PARSE) { return Err("element refused".into()); }
        let d = s.strip_prefix('<').and_then(|s| s.strip_suffix('>')).ok_or("shape")?;
        if d.is_empty() || d.len() > 10 || !d.bytes().all(|b| b.is_ascii_digit())
            || (d.len() > 1 && d.starts_with('0'))
        { return Err("digits".into()); }
        let v: usize = d.parse().map_err(|_| "digits".to_string())?;
        if v < size() { Ok(El::fresh(v as u32)) } else { Err("range".into()) }
    }
}
impl Elem for El {
    const NAME: &'static str = "El";
    fn mk(ix: u128) -> El { El::fresh(ix as u32) }
    fn ix(&self) -> u128 { u128::from(self.val()) }
    fn max_ix() -> u128 { size() as u128 - 1 }
    const HOOKED: bool = true;
}

macro_rules! ints {
    ($($t:ident $conv:expr, $back:expr;)*) => {$(
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            fn mk(ix: u128) -> $t { let f: fn(u128) -> $t = $back; f(ix) }
            fn ix(&self) -> u128 { let f: fn($t) -> u128 = $conv; f(*self) }
            fn max_ix() -> u128 { $t::MAX.ix() }
            const HOOKED: bool = false;
        }
    )*};
}
ints! {
    u8 |x| u128::from(x), |i| i as u8;
    u16 |x| u128::from(x), |i| i as u16;
    u32 |x| u128::from(x), |i| i as u32;
    usize |x| x as u128, |i| i as usize;
    u128 |x| x, |i| i;
    i16 |x| (i128::from(x) - i128::from(i16::MIN)) as u128, |i| (i as i128 + i128::from(i16::MIN)) as i16;
    i64 |x| (i128::from(x) - i128::from(i64::MIN)) as u128, |i| (i as i128 + i128::from(i64::MIN)) as i64;
    isize |x| (x as i128 - isize::MIN as i128) as u128, |i| (i as i128 + isize::MIN as i128) as isize;
    i8 |x| (i128::from(x) - i128::from(i8::MIN)) as u128, |i| (i as i128 + i128::from(i8::MIN)) as i8;
    i32 |x| (i128::from(x) - i128::from(i32::MIN)) as u128, |i| (i as i128 + i128::from(i32::MIN)) as i32;
    u64 |x| u128::from(x), |i| i as u64;
    i128 |x| x.wrapping_sub(i128::MIN) as u128, |i| (i as i128).wrapping_add(i128::MIN);
}

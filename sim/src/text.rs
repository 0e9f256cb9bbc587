//! A log of interval records written as text. Clients append through sinks
//! that fail, the log crashes and is damaged, and recovery parses every record.

use crate::dom::B;
use crate::elem::{self, Elem, El};
use crate::hook::{self, Arm, Mode, Out, NO_ARM};
use crate::machine::{prop_bit, RunResult, Stats, Viol, C10, C11};
use crate::rng::{hash_str, mix, Rng};
use normalize_interval::bound::Bound;
use normalize_interval::raw_interval::RawInterval;
use serde::{Deserialize, Serialize};
use std::fmt::{self, Write as _};
use std::io;
use std::str::FromStr;

/// Bounds by position in the run's value table. `k`: 0 empty, 1 point, 2 open,
/// 3 left open, 4 right open, 5 closed, 6 up to, 7 up from, 8 to, 9 from, 10 full.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct TIv { pub k: u8, pub a: u16, pub b: u16, pub how: u8 }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Default)]
pub struct SinkFault {
    /// 0 none, 1 refuses from byte `at` on, 2 refuses once at byte `at`,
    /// 3 refuses call number `at` once, 4 refuses calls `at`, `at`+2, ...,
    /// 5 an end point's own formatting fails, 6 it unwinds.
    pub kind: u8,
    pub at: u16,
    /// `io::Write` only: bytes per call (0 unlimited), EINTR every n calls.
    pub chunk: u8,
    pub eintr: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Edit { pub k: u8, pub a: u16, pub b: u16 }

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum TOp {
    /// Append a record through an `io::Write` or `fmt::Write` sink.
    Append { iv: TIv, io: bool, f: SinkFault, retry: bool },
    Sync,
    /// Power loss; of what was not synced, the first `keep`/65536 survives.
    Crash { keep: u16 },
    /// Parse every record of the log.
    Recover,
    /// Parse every record of a damaged copy of the log.
    Damaged { e: Vec<Edit> },
    /// Edit one record's text and parse it.
    Edited { rec: u16, e: Vec<Edit> },
    /// Text put together from fragments of the notation.
    Glued { parts: Vec<u8>, seed: u16 },
    /// Parse a record while element parsing is refused or unwinds.
    Refused { rec: u16, at: u8, panic: bool },
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct TextPlan {
    pub elem: String,
    pub n: u16,
    pub vals: Vec<String>,
    pub steps: Vec<TOp>,
}

const TOKENS: [&str; 30] = [
    "(", "[", ")", "]", ",", "∞", "-∞", "Ø", " ", "-", "+", "0", "<", ">", "(-∞", "∞)", "(-∞,", ",∞)",
    "\t", "\u{0}", "é", "∅", "[]", "()", "Ø ", "∞]", "[-∞", "..", "\u{feff}", "\r",
];

pub fn gen_text(prop: &str, r: &mut Rng) -> TextPlan {
    let elem = (*r.pick(&["El", "El", "El", "i32", "i32", "u8", "i8", "i128", "u64", "Odd"])).to_string();
    let n = *r.pick(&[1u16, 2, 3, 5, 9, 40, 120, 250]);
    let max: u128 = match elem.as_str() {
        "El" => u128::from(n) - 1,
        "u8" | "i8" => 255,
        "i32" => u128::from(u32::MAX),
        "u64" => u128::from(u64::MAX),
        "Odd" => u128::from(ODD),
        _ => u128::MAX,
    };
    let mut vals: Vec<u128> = vec![0, max, max / 2];
    for _ in 0..r.range(0, 6) {
        vals.push(match r.below(4) {
            0 => (max / 2).saturating_add(u128::from(r.u64() % 20)).min(max),
            1 => (max / 2).saturating_sub(u128::from(r.u64() % 20)),
            2 => (u128::from(r.u64()) << 64 | u128::from(r.u64())) & max.max(1),
            _ => u128::from(r.u64() % 1200),
        }.min(max));
    }
    vals.sort_unstable();
    vals.dedup();
    let nv = vals.len();
    let len = if r.chance(1, 10) { r.range(60, 120) } else { r.range(6, 50) };
    let faults = r.chance(17, 20);
    let c10 = prop == "C10";
    let mut appended = 0usize;
    let mut steps = Vec::new();
    let edits = |r: &mut Rng| -> Vec<Edit> {
        let n = *r.pick(&[1usize, 1, 1, 2, 2, 3, 5]);
        (0..n).map(|_| Edit { k: r.below(14) as u8, a: r.u64() as u16, b: r.u64() as u16 }).collect()
    };
    for i in 0..len {
        let w: [u32; 8] = if c10 { [60, 8, 5, 8, 1, 2, 1, 0] } else { [24, 3, 2, 6, 16, 34, 24, 6] };
        let k = if i == 0 || appended == 0 { 0 } else { r.weighted(&w) };
        steps.push(match k {
            0 => {
                appended += 1;
                let (a, b) = (r.below(nv), r.below(nv));
                let kind = r.below(11) as u8;
                let f = if faults && r.chance(if c10 { 65 } else { 30 }, 100) {
                    SinkFault { kind: r.below(7) as u8, at: r.u64() as u16, chunk: *r.pick(&[0u8, 1, 2, 3]), eintr: *r.pick(&[0u8, 2, 3]) }
                } else { SinkFault::default() };
                TOp::Append { iv: TIv { k: kind, a: a as u16, b: b as u16, how: r.below(3) as u8 }, io: r.chance(1, 2), f, retry: r.chance(2, 3) }
            }
            1 => TOp::Sync,
            2 => TOp::Crash { keep: *r.pick(&[0u16, 8000, 20000, 40000, 65535, 65535]) },
            3 => TOp::Recover,
            4 => TOp::Damaged { e: edits(r) },
            5 => TOp::Edited { rec: r.u64() as u16, e: edits(r) },
            6 => TOp::Glued { parts: (0..r.range(1, 6)).map(|_| r.u64() as u8).collect(), seed: r.u64() as u16 },
            _ => TOp::Refused { rec: r.u64() as u16, at: r.range(1, 4) as u8, panic: r.chance(1, 2) },
        });
    }
    TextPlan { elem, n, vals: vals.iter().map(|v| v.to_string()).collect(), steps }
}

/// Elements whose own text uses the characters of the notation (all but the
/// comma) and letters of several bytes.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Serialize, Deserialize)]
struct Odd(u16);
const ODD: u16 = 999;
const AROUND: [(&str, &str); 12] = [("", ""), ("[", "]"), ("(", ")"), ("-∞", ""), ("∞", ""), ("Ø", ""), ("", ")"), ("[", ""), ("(-∞", ""), ("", "∞)"), ("é", "ß"), (" ", " ")];
impl fmt::Display for Odd {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let (a, b) = AROUND[self.0 as usize % 12];
        write!(f, "{a}{}{b}", self.0)
    }
}
impl FromStr for Odd {
    type Err = String;
    fn from_str(s: &str) -> Result<Odd, String> {
        let d: String = s.chars().filter(char::is_ascii_digit).collect();
        let v = Odd(d.parse().map_err(|_| "digits".to_string())?);
        if v.0 <= ODD && v.to_string() == s { Ok(v) } else { Err("shape".into()) }
    }
}
impl normalize_interval::normalize::Finite for Odd {
    const MINIMUM: Odd = Odd(0);
    const MAXIMUM: Odd = Odd(ODD);
    fn pred(&self) -> Option<Odd> { self.0.checked_sub(1).map(Odd) }
    fn succ(&self) -> Option<Odd> { if self.0 < ODD { Some(Odd(self.0 + 1)) } else { None } }
}
impl Elem for Odd {
    const NAME: &'static str = "Odd";
    fn mk(ix: u128) -> Odd { Odd(ix as u16) }
    fn ix(&self) -> u128 { u128::from(self.0) }
    fn max_ix() -> u128 { u128::from(ODD) }
    const HOOKED: bool = false;
}

/// What a record should read back as.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Val { Empty, R(B, B) }

/// A sink that refuses some writes.
struct Sink { out: Vec<u8>, f: SinkFault, at: usize, calls: usize, refused: bool, once: bool, after: bool, short: u64, eintr: u64 }

impl Sink {
    /// Bytes accepted of `b`, or a refusal.
    fn take(&mut self, b: &[u8], io: bool) -> Result<usize, ()> {
        self.calls += 1;
        let refuse_call = match self.f.kind {
            3 => self.calls == self.at + 1,
            4 => self.calls > self.at && (self.calls - self.at) % 2 == 1,
            _ => false,
        };
        if refuse_call { self.refused = true; return Err(()); }
        let mut n = b.len();
        let limited = self.f.kind == 1 || (self.f.kind == 2 && !self.once);
        let left = if limited { self.at.saturating_sub(self.out.len()) } else { usize::MAX };
        if n > left {
            // An `io` sink accepts what fits first, a `fmt` sink all or nothing.
            if !io || left == 0 { self.refused = true; self.once = true; return Err(()); }
            n = left;
        }
        if self.refused && n > 0 { self.after = true; }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if s.is_empty() && self.f.kind < 3 { return Ok(()); }
        self.take(s.as_bytes(), false).map(|_| ()).map_err(|()| fmt::Error)
    }
}
struct IoSink<'a>(&'a mut Sink, usize);
impl io::Write for IoSink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        self.1 += 1;
        if self.0.f.eintr > 1 && self.1 % self.0.f.eintr as usize == 0 {
            self.0.eintr += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let c = self.0.f.chunk as usize;
        let b = if c != 0 && b.len() > c { self.0.short += 1; &b[..c] } else { b };
        self.0.take(b, true).map_err(|()| io::Error::other("i/o error"))
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

struct Rec { start: usize, end: usize, acked: Option<Val> }

struct World<'s, T> {
    vals: Vec<u128>,
    mine: u32,
    log: Vec<u8>,
    recs: Vec<Rec>,
    synced: usize,
    step: usize,
    digest: u64,
    owned: u64,
    fired: u64,
    st: &'s mut Stats,
    foreign: Option<Viol>,
    _t: std::marker::PhantomData<T>,
}

fn elem_text<T: Elem + fmt::Display>(ix: u128) -> String {
    let mut s = String::new();
    let _ = write!(s, "{}", T::mk(ix));
    s
}

fn full_text<T: Elem + fmt::Display>(v: Val) -> String {
    let t = |x: u128| elem_text::<T>(x);
    match v {
        Val::Empty => "Ø".into(),
        Val::R(B::Inc(a), B::Inc(b)) if a == b => t(a),
        Val::R(l, h) => {
            let mut s = match l { B::Inf => "(-∞".to_string(), B::Inc(x) => "[".to_string() + &t(x), B::Exc(x) => "(".to_string() + &t(x) };
            s.push(',');
            s += &match h { B::Inf => "∞)".to_string(), B::Inc(x) => t(x) + "]", B::Exc(x) => t(x) + ")" };
            s
        }
    }
}

fn value<T: Elem>(v: Val) -> RawInterval<T> {
    let m = |x: u128| T::mk(x);
    match v {
        Val::Empty => RawInterval::Empty,
        Val::R(B::Inc(a), B::Inc(b)) => if a == b { RawInterval::Point(m(a)) } else { RawInterval::Closed(m(a), m(b)) },
        Val::R(B::Inc(a), B::Exc(b)) => RawInterval::RightOpen(m(a), m(b)),
        Val::R(B::Exc(a), B::Inc(b)) => RawInterval::LeftOpen(m(a), m(b)),
        Val::R(B::Exc(a), B::Exc(b)) => RawInterval::Open(m(a), m(b)),
        Val::R(B::Inf, B::Inc(b)) => RawInterval::To(m(b)),
        Val::R(B::Inf, B::Exc(b)) => RawInterval::UpTo(m(b)),
        Val::R(B::Inc(a), B::Inf) => RawInterval::From(m(a)),
        Val::R(B::Exc(a), B::Inf) => RawInterval::UpFrom(m(a)),
        Val::R(B::Inf, B::Inf) => RawInterval::Full,
    }
}

/// The reference reader: every acceptable reading of a text, none if it is not interval notation.
fn reading<T: Elem + FromStr>(s: &str) -> Vec<Val> {
    let p = |s: &str| T::from_str(s).ok().map(|x| x.ix());
    if s == "Ø" { return vec![Val::Empty]; }
    if let Some(x) = p(s) { return vec![Val::R(B::Inc(x), B::Inc(x))]; }
    let Some(at) = s.find(',') else { return vec![] };
    let (x, y) = (&s[..at], &s[at + 1..]);
    let l = if x == "(-∞" { B::Inf } else {
        let mut c = x.chars();
        match (c.next(), p(c.as_str())) {
            (Some('('), Some(v)) => B::Exc(v),
            (Some('['), Some(v)) => B::Inc(v),
            _ => return vec![],
        }
    };
    let h = if y == "∞)" { B::Inf } else {
        let mut c = y.chars();
        match (c.next_back(), p(c.as_str())) {
            (Some(')'), Some(v)) => B::Exc(v),
            (Some(']'), Some(v)) => B::Inc(v),
            _ => return vec![],
        }
    };
    let ix = |b: B| match b { B::Inf => None, B::Inc(x) | B::Exc(x) => Some(x) };
    match (ix(l), ix(h)) {
        (Some(a), Some(b)) if a > b => vec![Val::Empty],
        (Some(a), Some(b)) if a == b => match (l, h) {
            (B::Inc(_), B::Inc(_)) => vec![Val::R(l, h)],
            (B::Exc(_), B::Exc(_)) => vec![Val::Empty],
            // The half-open interval at one point: the constructors read it as the point.
            _ => vec![Val::R(B::Inc(a), B::Inc(a)), Val::Empty],
        },
        _ => vec![Val::R(l, h)],
    }
}

type R<T = ()> = Result<T, Viol>;

impl<T: Elem + fmt::Display + FromStr> World<'_, T> {
    fn check(&mut self, own: u32, ok: bool, class: &str, msg: impl FnOnce() -> String) -> R {
        self.st.oracle += 1;
        if own & self.mine != 0 { self.owned += 1; }
        if ok { return Ok(()); }
        let v = Viol { owners: own, class: class.into(), msg: msg(), step: self.step };
        // A failure of another property does not end the run: the log holds
        // whatever was written.
        if own & self.mine == 0 { self.foreign.get_or_insert(v); return Ok(()); }
        Err(v)
    }
    fn mixd(&mut self, x: u64) { self.digest = mix(self.digest ^ x); }

    fn val(&self, t: &TIv) -> (Val, RawInterval<T>) {
        let n = self.vals.len();
        let (mut a, mut b) = (self.vals[t.a as usize % n], self.vals[t.b as usize % n]);
        if a > b { std::mem::swap(&mut a, &mut b); }
        let m = |x: u128| T::mk(x);
        let k = if a == b && (2..=5).contains(&(t.k % 11)) { 1 } else { t.k % 11 };
        let v = match k {
            0 => Val::Empty,
            1 => Val::R(B::Inc(a), B::Inc(a)),
            2 => Val::R(B::Exc(a), B::Exc(b)),
            3 => Val::R(B::Exc(a), B::Inc(b)),
            4 => Val::R(B::Inc(a), B::Exc(b)),
            5 => Val::R(B::Inc(a), B::Inc(b)),
            6 => Val::R(B::Inf, B::Exc(a)),
            7 => Val::R(B::Exc(a), B::Inf),
            8 => Val::R(B::Inf, B::Inc(a)),
            9 => Val::R(B::Inc(a), B::Inf),
            _ => Val::R(B::Inf, B::Inf),
        };
        let bound = |b: B| match b { B::Inf => Bound::Infinite, B::Inc(x) => Bound::Include(m(x)), B::Exc(x) => Bound::Exclude(m(x)) };
        let r = match (t.how % 3, v) {
            (1, Val::R(l, h)) => RawInterval::new(bound(l), bound(h)),
            (2, Val::R(B::Exc(a), B::Exc(b))) => RawInterval::open(m(a), m(b)),
            (2, Val::R(B::Exc(a), B::Inc(b))) => RawInterval::left_open(m(a), m(b)),
            (2, Val::R(B::Inc(a), B::Exc(b))) => RawInterval::right_open(m(a), m(b)),
            (2, Val::R(B::Inc(a), B::Inc(b))) => RawInterval::closed(m(a), m(b)),
            _ => value(v),
        };
        (v, r)
    }

    fn parse(&mut self, own: u32, s: &str, arm: Arm) -> R<Option<Option<RawInterval<T>>>> {
        crate::trace(own, "from_str");
        let (o, rep) = hook::call(1_000_000, arm, || RawInterval::<T>::from_str(s).ok());
        self.st.calls += 1;
        self.st.elem_ops += rep.count;
        if rep.fired != 0 {
            self.fired += 1;
            self.st.hit(if arm.mode == Mode::Panic { "fault: element parsing unwinds" } else { "fault: element parsing refused" });
        }
        match o {
            Out::Ok(x) => { self.mixd(u64::from(x.is_some())); Ok(Some(x)) }
            Out::Injected => Ok(None),
            Out::Budget => self.check(own, false, "budget/parse", || format!("parsing {s:?} does not finish")).map(|()| None),
            Out::Panic(m) => self.check(own, false, "panic/parse", || format!("parsing {s:?} panicked: {m}")).map(|()| None),
        }
    }

    /// Any text: accepted exactly if it is interval notation.
    fn judge(&mut self, s: &str) -> R {
        let want = reading::<T>(s);
        let shape: String = s.chars().map(|c| if c.is_ascii_digit() { '9' } else { c }).collect();
        self.st.states.insert(hash_str(&shape) ^ hash_str(T::NAME));
        self.mixd(hash_str(s));
        let Some(got) = self.parse(C11, s, NO_ARM)? else { return Ok(()) };
        match got {
            None => {
                self.st.hit("probe: text rejected");
                self.check(C11, want.is_empty(), "parse/rejected", || format!("{s:?} is interval notation over {} but was rejected", T::NAME))
            }
            Some(v) => {
                self.st.hit("probe: text accepted");
                self.check(C11, !want.is_empty(), "parse/accepted", || format!("{s:?} is not interval notation over {} but was accepted as {v:?}", T::NAME))?;
                let ok = want.iter().any(|w| value::<T>(*w) == v);
                self.check(C11, ok, "parse/value", || format!("{s:?} was read as {v:?}, not {want:?}"))
            }
        }
    }

    fn append(&mut self, t: &TIv, io: bool, f: SinkFault, retry: bool) -> R {
        let (v, iv) = self.val(t);
        let full = full_text::<T>(v);
        let mut f = f;
        if matches!(f.kind, 5 | 6) && !T::HOOKED { f.kind = 1; }
        // A failing `Display` under an `io` sink is a panic of the standard library.
        let io = io && f.kind != 5;
        let at = match f.kind {
            1 | 2 => (f.at as usize * (full.len() + 1)) >> 16,
            3 | 4 => (f.at as usize * 9) >> 16,
            _ => 0,
        };
        let arm = match f.kind {
            5 => Arm { mode: Mode::Error, mask: hook::FMT, trip: 1 + u64::from(f.at) % 4 },
            6 => Arm { mode: Mode::Panic, mask: hook::FMT, trip: 1 + u64::from(f.at) % 4 },
            _ => NO_ARM,
        };
        let mut tries = 0;
        loop {
            let (f, arm) = if tries == 0 { (f, arm) } else { (SinkFault::default(), NO_ARM) };
            let mut sink = Sink { out: vec![], f, at, calls: 0, refused: false, once: false, after: false, short: 0, eintr: 0 };
            crate::trace(C10, "fmt");
            let (o, rep) = hook::call(1_000_000, arm, || {
                if io { let mut w = IoSink(&mut sink, 0); io::Write::write_fmt(&mut w, format_args!("{iv}")).is_ok() }
                else { write!(sink, "{iv}").is_ok() }
            });
            self.st.calls += 1;
            self.st.elem_ops += rep.count;
            self.mixd(o.code());
            for b in sink.out.clone() { self.mixd(u64::from(b)); }
            self.st.add("fault: sink short write", sink.short);
            self.st.add("fault: sink interrupted", sink.eintr);
            let failed = sink.refused || rep.fired != 0;
            if failed {
                self.fired += 1;
                self.st.hit(["", "fault: sink full", "fault: sink refuses once", "fault: sink refuses a call", "fault: sink refuses repeatedly",
                    "fault: element formatting fails", "fault: element formatting unwinds"][f.kind as usize % 7]);
            }
            let text = String::from_utf8_lossy(&sink.out).into_owned();
            let ok = match o {
                Out::Ok(b) => b,
                Out::Injected => false,
                Out::Panic(m) => return self.check(C10, false, "panic/display", || format!("writing {iv:?} panicked: {m}")),
                Out::Budget => return self.check(C10, false, "budget/display", || format!("writing {iv:?} does not finish")),
            };
            self.check(C10, !(ok && failed), "sink/unreported", || format!("writing {iv:?} failed after {text:?} but was reported as done"))?;
            self.check(C10, ok || failed, "sink/spurious", || format!("writing {iv:?} to a working sink failed after {text:?}"))?;
            self.check(C10, !sink.after, "sink/after", || format!("writing {iv:?} went on after the sink failed: {text:?}"))?;
            self.check(C10, full.as_bytes().starts_with(&sink.out), "sink/prefix", || format!("the sink holds {text:?}, no prefix of {full:?}"))?;
            if ok { self.check(C10, text == full, "sink/text", || format!("{iv:?} was written as {text:?}, not {full:?}"))?; }
            self.st.states.insert(mix(hash_str(&full.chars().map(|c| if c.is_ascii_digit() { '9' } else { c }).collect::<String>())
                ^ (sink.out.len() as u64) << 8 ^ u64::from(f.kind) << 3 ^ u64::from(io)));
            let start = self.log.len();
            self.log.extend_from_slice(&sink.out);
            let end = self.log.len();
            self.log.push(b'\n');
            self.recs.push(Rec { start, end, acked: (ok && text == full).then_some(v) });
            if ok {
                // Read back.
                let Some(back) = self.parse(C10 | C11, &full, NO_ARM)? else { return Ok(()) };
                self.check(C10 | C11, back == Some(value::<T>(v)), "readback", || format!("{full:?} reads back as {back:?}"))?;
                return Ok(());
            }
            if !retry || tries > 0 { return Ok(()); }
            tries += 1;
            self.st.hit("probe: failed write retried");
        }
    }

    fn lines(log: &[u8]) -> Vec<String> {
        log.split(|b| *b == b'\n').map(|l| String::from_utf8_lossy(l).into_owned()).collect()
    }

    fn edit(&self, b: &mut Vec<u8>, e: &Edit, whole: bool) {
        let n = b.len();
        let at = |x: u16, n: usize| ((x as usize) * n) >> 16;
        // Most edits respect character boundaries, so that the text stays text.
        let snap = |b: &[u8], mut i: usize| { while i > 0 && i < b.len() && b[i] & 0xc0 == 0x80 { i -= 1; } i };
        match e.k {
            0 => b.truncate(at(e.a, n + 1)),
            1 => if n > 0 { let i = at(e.a, n); b[i] ^= 1 << (e.b % 8); },
            2 => if n > 0 { let i = snap(b, at(e.a, n)); let j = snap(b, (i + 1 + at(e.b, 8)).min(n)); if i < j { b.drain(i..j); } },
            3 => if n > 0 { let i = snap(b, at(e.a, n)); let j = snap(b, (i + 1 + at(e.b, 12)).min(n)); if i < j { let s = b[i..j].to_vec(); b.splice(j..j, s); } },
            4 | 5 | 6 => { let i = snap(b, at(e.a, n + 1)); let t = TOKENS[e.b as usize % TOKENS.len()].as_bytes().to_vec(); b.splice(i..i, t); }
            7 | 8 => {
                // Replace one character by a token.
                if n > 0 {
                    let i = snap(b, at(e.a, n));
                    let mut j = i + 1;
                    while j < n && b[j] & 0xc0 == 0x80 { j += 1; }
                    let t = TOKENS[e.b as usize % TOKENS.len()].as_bytes().to_vec();
                    b.splice(i..j, t);
                }
            }
            9 if whole => {
                // A lost record separator glues two records.
                let nl: Vec<usize> = (0..n).filter(|i| b[*i] == b'\n').collect();
                if !nl.is_empty() { b.remove(nl[at(e.a, nl.len())]); }
            }
            10 if whole => {
                let mut ls: Vec<Vec<u8>> = b.split(|x| *x == b'\n').map(<[u8]>::to_vec).collect();
                let (i, j) = (at(e.a, ls.len()), at(e.b, ls.len()));
                ls.swap(i, j);
                *b = ls.join(&b'\n');
            }
            9 | 10 => {
                // Another record's text before or behind.
                if let Some(r) = self.recs.get(at(e.b, self.recs.len())) {
                    let t = self.log.get(r.start..r.end).unwrap_or(&[]).to_vec();
                    let i = if e.k == 9 { n } else { 0 };
                    b.splice(i..i, t);
                }
            }
            11 => {
                // Swap the last character, where the upper bound's kind is.
                if n > 0 { let t = [b')', b']', b' ', b'('][e.b as usize % 4]; let i = n - 1; if b[i] < 0x80 { b[i] = t; } }
            }
            12 => if n > 0 { let t = [b'(', b'[', b' ', b')'][e.b as usize % 4]; if b[0] < 0x80 { b[0] = t; } },
            _ => {
                // A digit, sign or space inside.
                let i = snap(b, at(e.a, n + 1));
                b.insert(i, b"0123456789+- "[e.b as usize % 13]);
            }
        }
    }

    fn exec(&mut self, op: &TOp) -> R {
        self.st.steps += 1;
        match op {
            TOp::Append { iv, io, f, retry } => self.append(iv, *io, *f, *retry),
            TOp::Sync => { self.synced = self.log.len(); Ok(()) }
            TOp::Crash { keep } => {
                self.st.hit("fault: crash and restart");
                self.fired += 1;
                let lost = self.log.len() - self.synced;
                let left = self.synced + ((*keep as usize * (lost + 1)) >> 16);
                let left = left.min(self.log.len());
                self.log.truncate(left);
                let torn = !self.log.is_empty() && *self.log.last().unwrap() != b'\n';
                self.recs.retain(|r| r.start < left);
                for r in &mut self.recs { if r.end > left { r.end = left; r.acked = None; } }
                if torn { self.st.hit("fault: torn log record"); self.log.push(b'\n'); }
                self.synced = self.log.len();
                self.recover()
            }
            TOp::Recover => self.recover(),
            TOp::Damaged { e } => {
                let mut b = self.log.clone();
                for x in e { self.edit(&mut b, x, true); }
                self.st.add("fault: log damaged", e.len() as u64);
                self.fired += 1;
                if b.len() > 50_000 { return Ok(()); }
                for l in Self::lines(&b) { self.judge(&l)?; }
                Ok(())
            }
            TOp::Edited { rec, e } => {
                if self.recs.is_empty() { return Ok(()); }
                let r = &self.recs[(*rec as usize * self.recs.len()) >> 16];
                let mut b = self.log.get(r.start..r.end).unwrap_or(&[]).to_vec();
                for x in e { self.edit(&mut b, x, false); }
                self.st.add("fault: record edited", e.len() as u64);
                self.fired += 1;
                let s = String::from_utf8_lossy(&b).into_owned();
                self.judge(&s)
            }
            TOp::Glued { parts, seed } => {
                let mut s = String::new();
                let n = self.vals.len();
                for (i, p) in parts.iter().enumerate() {
                    let x = *p as usize;
                    match x % 3 {
                        0 => s += TOKENS[(x / 3 + *seed as usize) % TOKENS.len()],
                        1 => s += &elem_text::<T>(self.vals[(x / 3 + i) % n]),
                        _ => {
                            let k = x / 3;
                            s += ["(", "[", "(-∞,", ",", ")", "]", ",∞)", "Ø", "(-∞"][k % 9];
                        }
                    }
                }
                self.judge(&s)
            }
            TOp::Refused { rec, at, panic } => {
                if self.recs.is_empty() { return Ok(()); }
                let r = &self.recs[(*rec as usize * self.recs.len()) >> 16];
                let s = String::from_utf8_lossy(self.log.get(r.start..r.end).unwrap_or(&[])).into_owned();
                let arm = Arm { mode: if *panic { Mode::Panic } else { Mode::Error }, mask: hook::PARSE, trip: u64::from(*at) };
                if let Some(Some(v)) = self.parse(C11, &s, arm)? {
                    let want = reading::<T>(&s);
                    let ok = want.iter().any(|w| value::<T>(*w) == v);
                    self.check(C11, ok, "parse/value", || format!("{s:?} was read as {v:?}, not {want:?}, while element parsing was refused"))?;
                }
                self.judge(&s)
            }
        }
    }

    fn recover(&mut self) -> R {
        for i in 0..self.recs.len() {
            let r = &self.recs[i];
            let acked = r.acked;
            let s = String::from_utf8_lossy(self.log.get(r.start..r.end).unwrap_or(&[])).into_owned();
            if let Some(v) = acked {
                let Some(got) = self.parse(C10 | C11, &s, NO_ARM)? else { continue };
                self.check(C10 | C11, got == Some(value::<T>(v)), "recover/acked", || format!("the acknowledged record {s:?} of {v:?} was recovered as {got:?}"))?;
            }
            self.judge(&s)?;
        }
        Ok(())
    }
}

fn go<T: Elem + fmt::Display + FromStr>(p: &TextPlan, prop: &str, st: &mut Stats) -> RunResult {
    elem::set_size(p.n as usize);
    elem::reset_live();
    let max = T::max_ix();
    let mut vals: Vec<u128> = p.vals.iter().map(|v| v.parse::<u128>().unwrap_or(0).min(max)).collect();
    if vals.is_empty() { vals.push(0); }
    let mut w: World<'_, T> = World {
        vals, mine: prop_bit(prop), log: vec![], recs: vec![], synced: 0, step: 0, digest: 7, owned: 0, fired: 0, st, foreign: None, _t: std::marker::PhantomData,
    };
    let mut out = Ok(());
    for (i, s) in p.steps.iter().enumerate() {
        w.step = i;
        out = w.exec(s);
        if out.is_err() { break; }
    }
    if out.is_ok() { w.step = p.steps.len(); out = w.recover(); }
    let (digest, owned, fired, mine) = (w.digest, w.owned, w.fired, w.mine);
    let (mut viol, mut foreign) = (None, w.foreign);
    if let Err(v) = out { if v.owners & mine != 0 { viol = Some(v); } else { foreign = Some(v); } }
    RunResult { viol, foreign, digest, nontrivial: owned > 0 && fired > 0 }
}

pub fn run(p: &TextPlan, prop: &str, st: &mut Stats) -> RunResult {
    match p.elem.as_str() {
        "u8" => go::<u8>(p, prop, st),
        "i8" => go::<i8>(p, prop, st),
        "i32" => go::<i32>(p, prop, st),
        "u64" => go::<u64>(p, prop, st),
        "i128" => go::<i128>(p, prop, st),
        "Odd" => go::<Odd>(p, prop, st),
        _ => go::<El>(p, prop, st),
    }
}

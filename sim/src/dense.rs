//! Short histories of tine trees over several ordered types, which the tree
//! must treat as dense, checked against plain ranges of positions: an odd
//! position is an element, an even one the gap before it.

use crate::ints::{complement, damage_tines, has, intersect, join, union, Bad, Set, BULK};
use crate::machine::{damage_bytes, C04, C06, C08, C09, C14};
use crate::rng::mix;
use normalize_interval::bound::Bound;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::tine_tree::TineTree;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cmp::Reverse;
use std::collections::BTreeSet;

/// The last element; elements are 0..=M.
const M: u128 = 2500;
const TOP: u128 = 2 * M + 2;

pub const NAMES: [&str; 8] = ["i64", "String", "pair", "Reverse", "char", "Box", "f64", "BTreeSet"];

trait Dense: Ord + Clone + std::fmt::Debug + Serialize + DeserializeOwned {
    fn mk(v: u128) -> Self;
    fn ix(&self) -> u128;
}
impl Dense for i64 {
    fn mk(v: u128) -> i64 { v as i64 * 3 - 3000 }
    fn ix(&self) -> u128 { (self.wrapping_add(3000) / 3) as u128 }
}
impl Dense for String {
    fn mk(v: u128) -> String { format!("{v:06}") }
    fn ix(&self) -> u128 { self.parse().unwrap_or(u128::MAX / 4) }
}
impl Dense for (u8, String) {
    fn mk(v: u128) -> Self { ((v / 50) as u8, format!("{:03}", v % 50)) }
    fn ix(&self) -> u128 { u128::from(self.0) * 50 + self.1.parse::<u128>().unwrap_or(u128::MAX / 4) }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
struct Down(Reverse<i32>);
impl Dense for Down {
    fn mk(v: u128) -> Self { Down(Reverse(1000 - v as i32)) }
    fn ix(&self) -> u128 { 1000i32.wrapping_sub(self.0 .0) as u128 }
}
impl Dense for char {
    fn mk(v: u128) -> char { char::from_u32(v as u32 + if v > 700 { 0xE000 - 701 } else { 0xD7FF - 700 }).unwrap_or('?') }
    fn ix(&self) -> u128 { let c = *self as u32; u128::from(if c >= 0xE000 { c - 0xE000 + 701 } else { c.wrapping_sub(0xD7FF - 700) }) }
}
impl Dense for Box<u16> {
    fn mk(v: u128) -> Self { Box::new(v as u16 * 7) }
    fn ix(&self) -> u128 { u128::from(**self / 7) }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
struct Real(f64);
impl PartialEq for Real { fn eq(&self, o: &Self) -> bool { self.0.total_cmp(&o.0).is_eq() } }
impl Eq for Real {}
impl PartialOrd for Real { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for Real { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.total_cmp(&o.0) } }
impl Dense for Real {
    fn mk(v: u128) -> Self { Real((v as f64 - 1024.0) / 8.0) }
    fn ix(&self) -> u128 { (self.0 * 8.0 + 1024.0) as u128 }
}
impl Dense for BTreeSet<u16> {
    fn mk(v: u128) -> Self { [v as u16 / 40 * 2, 1000 + v as u16 % 40].into_iter().collect() }
    fn ix(&self) -> u128 {
        let (Some(a), Some(b)) = (self.first(), self.last()) else { return u128::MAX / 4 };
        u128::from(a / 2) * 40 + u128::from(b.wrapping_sub(1000))
    }
}

pub fn history(t: u8, ops: &[(u8, u16, u16)], damage: bool) -> Result<u64, Bad> {
    match t as usize % NAMES.len() {
        0 => run::<i64>(ops, damage),
        1 => run::<String>(ops, damage),
        2 => run::<(u8, String)>(ops, damage),
        3 => run::<Down>(ops, damage),
        4 => run::<char>(ops, damage),
        5 => run::<Box<u16>>(ops, damage),
        6 => run::<Real>(ops, damage),
        _ => run::<BTreeSet<u16>>(ops, damage),
    }
}

fn raw<T: Dense>(l: u128, h: u128) -> RawInterval<T> {
    let lo = if l == 0 { Bound::Infinite } else if l % 2 == 1 { Bound::Include(T::mk(l / 2)) } else { Bound::Exclude(T::mk(l / 2 - 1)) };
    let hi = if h == TOP { Bound::Infinite } else if h % 2 == 1 { Bound::Include(T::mk(h / 2)) } else { Bound::Exclude(T::mk(h / 2)) };
    RawInterval::new(lo, hi)
}

fn range<T: Dense>(i: &RawInterval<T>) -> Option<(u128, u128)> {
    let l = match i.lower_bound()? { Bound::Infinite => 0, Bound::Include(x) => 2 * x.ix() + 1, Bound::Exclude(x) => 2 * x.ix() + 2 };
    let h = match i.upper_bound()? { Bound::Infinite => TOP, Bound::Include(x) => 2 * x.ix() + 1, Bound::Exclude(x) => 2 * x.ix() };
    Some((l, h))
}

fn at(x: u16, recent: &[u128]) -> u128 {
    match x & 7 {
        0..=3 if !recent.is_empty() => (recent[usize::from(x >> 3) % recent.len()] + u128::from(x >> 9 & 3)).saturating_sub(1).min(M),
        0 | 4 => u128::from(x >> 3 & 15),
        5 => M - u128::from(x >> 3 & 7),
        _ => u128::from(x >> 3) % (M + 1),
    }
}

/// The range of one interval.
fn shape(x: u16, y: u16, recent: &[u128]) -> Set {
    let (a, b) = (at(x, recent), at(y, recent));
    let (a, b) = (a.min(b), a.max(b));
    let (p, q) = (2 * a + 1, 2 * b + 1);
    let r = match (x >> 12 ^ y >> 9) & 15 {
        0..=2 => (p, q),
        3 | 4 => (p + 1, q.saturating_sub(1)),
        5 | 6 => (p + 1, q),
        7 | 8 => (p, q.saturating_sub(1)),
        9 | 10 => (p, p),
        11 => (p, TOP),
        12 => (p + 1, TOP),
        13 => (0, q),
        14 => (0, q - 1),
        _ => if x & 1 == 0 { (0, TOP) } else { (1, 0) },
    };
    if r.0 <= r.1 { vec![r] } else { vec![] }
}

/// Many intervals at regular distances, of all kinds.
fn comb(x: u16, y: u16) -> Set {
    let stride = 2 * (u128::from(y & 7) + if y >> 3 & 3 == 0 { 4 } else { 1 });
    let count = (u128::from(y >> 7) + 60).min(TOP / stride - 2);
    let base = u128::from(x) % (TOP - count * stride);
    let w = u128::from(y >> 5 & 3);
    let mut out = Vec::new();
    for k in 0..count {
        let l = base + k * stride + if x >> 13 == 0 { mix(k as u64) as u128 % 2 } else { 0 };
        let h = (l + w).min(base + (k + 1) * stride - 1);
        // A lone gap between two excluded neighbours is an interval, too.
        if l <= h && h < TOP && l > 0 { out.push((l, h)); }
    }
    join(out)
}

fn listed<T: Dense>(v: &TineTree<T>) -> Vec<Option<(u128, u128)>> { v.interval_iter().map(|i| range(&i)).collect() }

/// Whatever was restored from a damaged document must be in normal form and
/// behave as it lists itself; `kept` is an honest value. Its elements may be
/// any, so they are taken by their rank. Gives the ranges if the elements are
/// those of the histories.
fn restored<T: Dense>(w: &TineTree<T>, kept: &TineTree<T>) -> Result<Option<Set>, Bad> {
    let list: Vec<RawInterval<T>> = w.interval_iter().collect();
    let bad = |what: &str| Err((C09, "damaged".to_string(), format!("a damaged document restored a value listing {:?}..., {what}", &list[..list.len().min(20)])));
    let ends = |l: &[RawInterval<T>]| -> Vec<T> {
        l.iter().flat_map(|i| [i.lower_bound(), i.upper_bound()]).filter_map(|b| match b { Some(Bound::Include(x) | Bound::Exclude(x)) => Some(x), _ => None }).collect()
    };
    let other: Vec<RawInterval<T>> = kept.interval_iter().collect();
    let mut pts = ends(&list);
    pts.extend(ends(&other));
    pts.sort();
    pts.dedup();
    let top = 2 * pts.len() as u128;
    let rank = |x: &T| pts.binary_search(x).map_or(u128::MAX / 4, |i| i as u128);
    let ranges = |l: &mut dyn Iterator<Item = RawInterval<T>>| -> Option<Set> {
        l.map(|i| {
            let a = match i.lower_bound()? { Bound::Infinite => 0, Bound::Include(x) => 2 * rank(&x) + 1, Bound::Exclude(x) => 2 * rank(&x) + 2 };
            let b = match i.upper_bound()? { Bound::Infinite => top, Bound::Include(x) => 2 * rank(&x) + 1, Bound::Exclude(x) => 2 * rank(&x) };
            (a <= b).then_some((a, b))
        }).collect()
    };
    let (Some(l), Some(k)) = (ranges(&mut list.iter().cloned()), ranges(&mut other.into_iter())) else { return bad("with an empty interval") };
    if join(l.clone()) != l { return bad("not in normal form"); }
    if w.is_empty() != l.is_empty() || w.is_full() != (l == vec![(0, top)]) { return bad("is_empty or is_full"); }
    let step = (pts.len() / 60).max(1);
    for (i, p) in pts.iter().enumerate().step_by(step) {
        if w.contains(p) != has(&l, 2 * i as u128 + 1) { return bad("contains"); }
    }
    if !w.clone().into_iter().rev().eq(list.iter().rev().cloned()) { return bad("its intervals backwards"); }
    if *w != list.iter().cloned().collect() || list.iter().rev().cloned().collect::<TineTree<T>>() != *w { return bad("equality with a value built anew"); }
    if ranges(&mut w.complement().interval_iter()) != Some(complement(&l, top)) { return bad("complement"); }
    if w.complement().complement() != *w { return bad("complement of the complement"); }
    if ranges(&mut w.union(kept).interval_iter()) != Some(union(&l, &k)) { return bad("union"); }
    if ranges(&mut w.minus(kept).interval_iter()) != Some(intersect(&l, &complement(&k, top))) { return bad("minus"); }
    if ranges(&mut kept.minus(w).interval_iter()) != Some(intersect(&k, &complement(&l, top))) { return bad("minus"); }
    if ranges(&mut w.intersect(kept).interval_iter()) != Some(intersect(&l, &k)) { return bad("intersect"); }
    let known = ends(&list).iter().all(|x| x.ix() <= M && T::mk(x.ix()) == *x);
    Ok(if known { listed(w).into_iter().collect() } else { None })
}

fn run<T: Dense>(ops: &[(u8, u16, u16)], damage: bool) -> Result<u64, Bad> {
    let mut taint = 0;
    let mut v: TineTree<T> = TineTree::new();
    let mut m: Set = Vec::new();
    let mut kept: (TineTree<T>, Set) = (TineTree::new(), Vec::new());
    let mut recent: Vec<u128> = Vec::new();
    let mut d = 11u64;
    for (n, &(k, x, y)) in ops.iter().enumerate() {
        let bad = |own: u32, class: &str, msg: String| Err((own | taint, class.to_string(), format!("step {n}: {msg}")));
        let im = shape(x, y, &recent);
        let iv: RawInterval<T> = im.first().map_or(RawInterval::Empty, |r| raw(r.0, r.1));
        recent.extend(im.iter().flat_map(|r| [(r.0 / 2).min(M), (r.1 / 2).min(M)]));
        if iv.is_empty() != im.is_empty() || range(&iv) != im.first().copied() {
            return bad(C14, "constructor", format!("interval {iv:?} should be {im:?}"));
        }
        let own = if k >= BULK {
            let c = comb(x, y);
            recent.extend(c.iter().take(3).map(|r| (r.0 / 2).min(M)));
            recent.extend(c.iter().rev().take(3).map(|r| (r.1 / 2).min(M)));
            let ivs = || c.iter().map(|&(l, h)| raw::<T>(l, h));
            let tree = || ivs().collect::<TineTree<T>>();
            match k % 12 {
                0 => { for i in ivs() { v.union_in_place(&i); } m = union(&m, &c); C14 }
                1 => { for i in ivs().rev().take(150) { v.union_in_place(&i); } m = union(&m, &c.iter().rev().copied().take(150).collect()); C14 }
                2 => { v = v.union(&tree()); m = union(&m, &c); C14 }
                3 => { v = v.minus(&tree()); m = intersect(&m, &complement(&c, TOP)); C14 }
                4 => { v = v.intersect(&tree()); m = intersect(&m, &c); C14 }
                5 => {
                    let mut s = c.clone();
                    s.sort_unstable_by_key(|q| mix(q.0 as u64 ^ u64::from(x)));
                    kept = (TineTree::from(s.iter().map(|q| raw::<T>(q.0, q.1))), join(s));
                    std::mem::swap(&mut v, &mut kept.0);
                    std::mem::swap(&mut m, &mut kept.1);
                    C14 | C06
                }
                6 => { for i in ivs().take(150) { v.minus_in_place(&i); } m = intersect(&m, &complement(&c.iter().copied().take(150).collect(), TOP)); C14 }
                7 => { kept = (RawInterval::union_all(ivs()).collect(), c.clone()); C14 | C06 }
                8 => { kept = (tree(), c.clone()); C14 | C06 }
                9 => { v = v.complement(); m = complement(&m, TOP); C14 }
                10 => { v.union_in_place(&iv); m = union(&m, &im); C14 }
                _ => { v.minus_in_place(&iv); m = intersect(&m, &complement(&im, TOP)); C14 }
            }
        } else { match k % 16 {
            0..=4 => { v.union_in_place(&iv); m = union(&m, &im); C14 }
            5..=7 => { v.minus_in_place(&iv); m = intersect(&m, &complement(&im, TOP)); C14 }
            8 => { v.intersect_in_place(&iv); m = intersect(&m, &im); C14 }
            9 => { v = v.complement(); m = complement(&m, TOP); C14 }
            10 => { v = v.union(&kept.0); m = union(&m, &kept.1); C14 }
            11 => { v = v.minus(&kept.0); m = intersect(&m, &complement(&kept.1, TOP)); C14 }
            12 => { v = kept.0.intersect(&v); m = intersect(&m, &kept.1); C14 }
            13 => { kept = (v.clone(), m.clone()); C14 }
            14 => { v = v.union(&TineTree::from(iv.clone())); m = union(&m, &im); C14 }
            _ => { std::mem::swap(&mut v, &mut kept.0); std::mem::swap(&mut m, &mut kept.1); C14 }
        } };
        let show = |m: &Set| if m.len() > 40 { format!("{:?} and {} more", &m[..40], m.len() - 40) } else { format!("{m:?}") };
        for &(a, b) in &m { d = mix(d ^ a as u64); d = mix(d ^ b as u64); }
        let want: Vec<Option<(u128, u128)>> = m.iter().map(|r| Some(*r)).collect();
        let got = listed(&v);
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or_else(|| got.len().min(want.len()));
            return bad(own, "content", format!("the tree lists {:?} at {at}, expected {:?} of {}", got.get(at), want.get(at), show(&m)));
        }
        if v.is_full() != (m == vec![(0, TOP)]) || v.is_empty() != m.is_empty() { return bad(C14, "full-empty", format!("is_full {}, is_empty {} for {}", v.is_full(), v.is_empty(), show(&m))); }
        for &(l, h) in m.iter().take(4).chain(m.get(m.len() / 2)).chain(m.get(m.len() / 3 * 2)).chain(m.last()) {
            for p in [(l / 2).checked_sub(1), Some(l / 2), Some(l / 2 + 1), Some(h / 2), (h / 2).checked_sub(1), Some(h / 2 + 1)].into_iter().flatten().filter(|p| *p <= M) {
                let g = v.contains(&T::mk(p));
                if g != has(&m, 2 * p + 1) { return bad(C14, "contains", format!("contains(element {p}) is {g} for {}", show(&m))); }
            }
        }
        let again = m.iter().map(|r| raw::<T>(r.0, r.1)).rev().take(60).collect::<TineTree<T>>();
        if m.len() <= 60 && again != v { return bad(C14, "equality", format!("{} built anew differs", show(&m))); }
        if (v == kept.0) != (m == kept.1) { return bad(C14, "equality", format!("equality of {} and {} is wrong", show(&m), show(&kept.1))); }
        let common = intersect(&m, &kept.1);
        if v.intersect(&kept.0).is_empty() != common.is_empty() { return bad(C14, "intersects", format!("intersect of {} and {}", show(&m), show(&kept.1))); }
        let hull = m.first().zip(m.last()).map(|(a, b)| (a.0, b.1));
        if range(&v.enclose()) != hull { return bad(C14, "enclose", format!("enclose of {} is {:?}", show(&m), v.enclose())); }
        let hull = hull.map(|(a, b)| (if a % 2 == 0 && a > 0 { a - 1 } else { a }, if b % 2 == 0 && b < TOP { b + 1 } else { b }));
        if range(&v.closure()) != hull { return bad(C14, "closure", format!("closure of {} is {:?}", show(&m), v.closure())); }
        if n + 1 == ops.len() || n % 4 == 3 {
            let mut it = v.interval_iter();
            let mut own_it = v.clone().into_iter();
            let (mut f, mut e) = (0usize, m.len());
            let mut r = u64::from(x) << 16 | u64::from(y);
            while f < e {
                r = mix(r);
                let skip = if r >> 8 & 15 == 0 { (r >> 12) as usize % 40 } else { 0 };
                let (a, b, w);
                if r & 1 == 1 {
                    w = (e - f > skip).then(|| e - 1 - skip);
                    e = w.unwrap_or(f);
                    (a, b) = (it.nth_back(skip), own_it.nth_back(skip));
                } else {
                    w = (e - f > skip).then(|| f + skip);
                    f = w.map_or(e, |w| w + 1);
                    (a, b) = (it.nth(skip), own_it.nth(skip));
                }
                let w = w.map(|w| m[w]);
                if a.as_ref().and_then(range) != w || b.as_ref().and_then(range) != w || a.is_some() != w.is_some() {
                    return bad(C04, "iteration", format!("skipping {skip} intervals gave {a:?} and {b:?}, expected {w:?}, of {}", show(&m)));
                }
            }
            let bytes = bincode::serialize(&v).map_err(|e| (C08, "save".to_string(), e.to_string()))?;
            let back: TineTree<T> = bincode::deserialize(&bytes).map_err(|e| (C08, "load".to_string(), e.to_string()))?;
            let text = serde_json::to_string(&v).map_err(|e| (C08, "save".to_string(), e.to_string()))?;
            let back2: TineTree<T> = serde_json::from_str(&text).map_err(|e| (C08, "load".to_string(), e.to_string()))?;
            if back != v || back2 != v || listed(&back) != want || listed(&back2) != want { return bad(C08, "load", format!("restored {} intervals from {}", listed(&back).len(), show(&m))); }
            // As one part of a larger document.
            let parts = (&v, 7u8, &iv, &kept.0, Some(&v), "end");
            type Parts<T> = (TineTree<T>, u8, RawInterval<T>, TineTree<T>, Option<TineTree<T>>, String);
            let whole = bincode::serialize(&parts).map_err(|e| (C08, "save".to_string(), e.to_string()))?;
            let text2 = serde_json::to_string(&parts).map_err(|e| (C08, "save".to_string(), e.to_string()))?;
            let p: Parts<T> = bincode::deserialize(&whole).map_err(|e| (C08, "load".to_string(), format!("within a larger document: {e}")))?;
            let q: Parts<T> = serde_json::from_str(&text2).map_err(|e| (C08, "load".to_string(), format!("within a larger document: {e}")))?;
            for p in [p, q] {
                if (&p.0, p.1, &p.2, &p.3, p.4.as_ref(), p.5.as_str()) != parts { return bad(C08, "load", format!("a document holding {} and {} restored {p:?}", show(&m), show(&kept.1))); }
            }
            if damage {
                let doc = serde_json::from_str::<serde_json::Value>(&text).ok();
                let mut r = mix(u64::from(x) << 16 | u64::from(y));
                for round in 0..if m.len() < 40 { 6u8 } else { 3 } {
                    let w: TineTree<T> = match &doc {
                        Some(serde_json::Value::Array(ts)) if round % 4 != 0 => {
                            let mut ts = ts.clone();
                            for _ in 0..1 + r % 3 { r = mix(r); damage_tines(&mut ts, (r >> 48) as u8, r, mix(r)); }
                            let Ok(w) = serde_json::from_value(serde_json::Value::Array(ts)) else { continue };
                            w
                        }
                        _ => {
                            let mut b = bytes.clone();
                            r = mix(r);
                            damage_bytes(&mut b, &bytes, (r >> 48) as u8 % 7, r as u16, (r >> 16) as u16);
                            let Ok(w) = bincode::deserialize(&b) else { continue };
                            w
                        }
                    };
                    d = mix(d ^ 0xDA);
                    let l = restored(&w, &kept.0)?;
                    for q in l.iter().flatten() { d = mix(d ^ q.0 as u64) ^ q.1 as u64; }
                    // The history goes on with what was restored.
                    if let (Some(l), 0) = (l, r >> 40 & 3) { (v, m, taint) = (w, l, C09); }
                }
            }
        }
    }
    Ok(d)
}

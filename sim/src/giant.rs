//! Values of many thousands of intervals, which only cheap operations reach.

use crate::ints::{complement, has, intersect, join, union, Bad, Set};
use crate::machine::{C01, C02, C03, C04, C06, C08, C14};
use crate::rng::mix;
use normalize_interval::bound::Bound;
use normalize_interval::interval::Interval;
use normalize_interval::normalize::Finite;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::selection::Selection;
use normalize_interval::tine_tree::TineTree;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::time::Instant;

/// Element operations one such value may take; beyond that it is not judged,
/// so that code which is slower but as good is left alone. The seconds guard
/// against time spent between element operations; giving up leaves no trace in
/// the run.
const ENOUGH: u64 = 200_000_000;
const SECONDS: u64 = 6;
thread_local!(static OPS: Cell<(u64, Option<Instant>)> = const { Cell::new((0, None)) });
struct Enough;
fn tick() {
    OPS.with(|o| {
        let (n, t) = o.get();
        if n > ENOUGH || n % 256 == 0 && t.is_some_and(|t| t.elapsed().as_secs() >= SECONDS) { resume_unwind(Box::new(Enough)); }
        o.set((n + 1, t));
    });
}
/// Whether `f` came to an end within its element operations.
fn judged(f: impl FnOnce() -> Result<(), Bad>) -> Result<u64, Bad> {
    OPS.with(|o| o.set((0, Some(Instant::now()))));
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Ok(1),
        Ok(Err(b)) => Err(b),
        Err(e) if e.is::<Enough>() => Ok(1),
        Err(e) => resume_unwind(e),
    }
}

/// An integer whose operations are counted.
#[derive(PartialEq, Eq, Hash, Debug, Serialize, Deserialize)]
struct Num(i64);
impl Clone for Num { fn clone(&self) -> Self { tick(); Num(self.0) } }
impl PartialOrd for Num { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Num { fn cmp(&self, o: &Self) -> Ordering { tick(); self.0.cmp(&o.0) } }
const TOP: i64 = u32::MAX as i64;
impl Finite for Num {
    const MINIMUM: Num = Num(0);
    const MAXIMUM: Num = Num(TOP);
    fn pred(&self) -> Option<Self> { tick(); (self.0 > 0).then(|| Num(self.0 - 1)) }
    fn succ(&self) -> Option<Self> { tick(); (self.0 < TOP).then(|| Num(self.0 + 1)) }
}

fn hash_of<H: Hash>(h: &H) -> u64 { let mut s = DefaultHasher::new(); h.hash(&mut s); s.finish() }
fn fail<T>(own: u32, class: &str, msg: String) -> Result<T, Bad> { Err((own, class.to_string(), msg)) }

/// `n` ranges of positions with gaps of varying size, all below the top.
fn spread(n: u128, seed: u64, wide: u64) -> Set {
    let mut at = 1 + u128::from(mix(seed) % 3);
    (0..n).map(|k| {
        let r = mix(seed ^ (k as u64) << 20);
        let l = at + u128::from(r % wide);
        let h = l + u128::from((r >> 20) % wide);
        at = h + 2;
        (l, h)
    }).collect()
}
fn same(own: u32, what: &str, got: &Set, want: &Set) -> Result<(), Bad> {
    if got == want { return Ok(()); }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or_else(|| got.len().min(want.len()));
    fail(own, "content", format!("{what} lists {} intervals, expected {}; at {at} it lists {:?}, expected {:?}", got.len(), want.len(), got.get(at), want.get(at)))
}

/// Positions of a dense order over integers: odd ones are elements, even ones the
/// gaps beside them.
fn tine_raw(r: &(u128, u128), top: u128) -> RawInterval<Num> {
    let (l, h) = *r;
    let lo = if l == 0 { Bound::Infinite } else if l % 2 == 1 { Bound::Include(Num((l / 2) as i64)) } else { Bound::Exclude(Num((l / 2 - 1) as i64)) };
    let hi = if h == top { Bound::Infinite } else if h % 2 == 1 { Bound::Include(Num((h / 2) as i64)) } else { Bound::Exclude(Num((h / 2) as i64)) };
    RawInterval::new(lo, hi)
}
fn tine_range(i: &RawInterval<Num>, top: u128) -> (u128, u128) {
    let l = match i.lower_bound() { None => return (1, 0), Some(Bound::Infinite) => 0, Some(Bound::Include(x)) => 2 * x.0 as u128 + 1, Some(Bound::Exclude(x)) => 2 * x.0 as u128 + 2 };
    let h = match i.upper_bound() { None => return (1, 0), Some(Bound::Infinite) => top, Some(Bound::Include(x)) => 2 * x.0 as u128 + 1, Some(Bound::Exclude(x)) => 2 * x.0 as u128 };
    (l, h)
}

/// A tine tree of more intervals than 16 bits count.
pub fn tree(seed: u64) -> Result<u64, Bad> { judged(|| big_tree(seed)) }
fn big_tree(seed: u64) -> Result<(), Bad> {
    let n = 33_000 + u128::from(mix(seed) % 6_000);
    let mut m = join(spread(n, seed, 4));
    match mix(seed ^ 1) % 6 {
        // Exactly as many intervals, or ends of them, as 16 bits wrap at.
        0 => m = join(spread(65_536, seed, 4)),
        1 => {
            // A lone element is one end, and so is a lone missing element.
            let lone = |l: u128, h: u128| usize::from(l == h && l % 2 == 1);
            m = join(spread(65_536, seed, 4));
            let (mut tines, mut last) = (0, None);
            m.retain(|r| {
                let t = 2 - lone(r.0, r.1) - last.map_or(0, |h: u128| lone(h + 1, r.0 - 1));
                if tines + t > 65_536 { return false; }
                tines += t;
                last = Some(r.1);
                true
            });
        }
        _ => {}
    }
    let o = join(spread(n, mix(seed ^ 5), 4));
    let top = (m.last().unwrap().1.max(o.last().unwrap().1) / 2 + 3) * 2;
    let build = |m: &Set| m.iter().map(|r| tine_raw(r, top)).collect::<TineTree<Num>>();
    let list = |t: &TineTree<Num>| t.interval_iter().map(|i| tine_range(&i, top)).collect::<Set>();
    let v = build(&m);
    same(C14 | C06, "a collected tree", &list(&v), &m)?;
    let w = build(&o);
    let back: Set = v.interval_iter().rev().map(|i| tine_range(&i, top)).collect();
    same(C04, "iterating a tree backwards", &back.into_iter().rev().collect(), &m)?;
    if v.interval_iter().count() != m.len() || v.clone().into_iter().count() != m.len() { return fail(C04, "iteration", "the intervals of a tree are miscounted".into()); }
    let (lo, hi) = v.interval_iter().size_hint();
    if lo > m.len() || hi.map_or(false, |h| h < m.len()) { return fail(C04, "size_hint", format!("size_hint ({lo}, {hi:?}) for {} intervals", m.len())); }
    for k in [0, 1, m.len() / 2, m.len() - 2, m.len() - 1].into_iter().chain([32_767, 32_768, 65_535, 65_536].into_iter().filter(|k| *k < m.len())) {
        for p in [m[k].0 / 2, m[k].1 / 2, m[k].1 / 2 + 1] {
            if v.contains(&Num(p as i64)) != has(&m, 2 * p + 1) { return fail(C14, "contains", format!("contains({p}) is wrong in a tree of {} intervals", m.len())); }
        }
        let i = v.interval_iter().nth(k).map(|i| tine_range(&i, top));
        let j = v.interval_iter().nth_back(m.len() - 1 - k).map(|i| tine_range(&i, top));
        if i != Some(m[k]) || j != i { return fail(C04, "iteration", format!("interval {k} of {} is {i:?} and {j:?}, expected {:?}", m.len(), m[k])); }
    }
    let c = v.complement();
    same(C14, "a complement", &list(&c), &complement(&m, top))?;
    if c.complement() != v { return fail(C14, "equality", "the complement's complement differs".into()); }
    if v.is_empty() || v.is_full() { return fail(C14, "full-empty", "is_empty or is_full".into()); }
    if tine_range(&v.enclose(), top) != (m[0].0, m.last().unwrap().1) { return fail(C14, "enclose", format!("enclose is {:?}", v.enclose())); }
    same(C14, "an intersection", &list(&v.intersect(&w)), &intersect(&m, &o))?;
    // A small value against the large one.
    let mid = m[m.len() / 2].0;
    let small: Set = join(vec![m[m.len() - 3], (mid - 40, mid + 40), m[1], (m.last().unwrap().0, m.last().unwrap().1 + 1)]);
    let s = small.iter().map(|r| tine_raw(r, top)).collect::<TineTree<Num>>();
    same(C14, "a small tree less a large one", &list(&s.minus(&v)), &intersect(&small, &complement(&m, top)))?;
    same(C14, "a large tree less a small one", &list(&v.minus(&s)), &intersect(&m, &complement(&small, top)))?;
    same(C14, "a small tree with a large one", &list(&s.union(&c)), &union(&small, &complement(&m, top)))?;
    same(C14, "a large tree within a small one", &list(&v.intersect(&s)), &intersect(&m, &small))?;
    let mut x = v.clone();
    if x != v || hash_of(&x) != hash_of(&v) { return fail(C14, "equality", "a clone differs".into()); }
    let gone = m[m.len() - 1 - mix(seed ^ 9) as usize % m.len()];
    x.minus_in_place(&tine_raw(&gone, top));
    let left: Set = m.iter().copied().filter(|r| *r != gone).collect();
    same(C14, "a tree less one interval", &list(&x), &left)?;
    if x == v { return fail(C14, "equality", "trees differing in one interval are equal".into()); }
    x.union_in_place(&tine_raw(&gone, top));
    if x != v { return fail(C14, "equality", "an interval removed and put back".into()); }
    let bytes = bincode::serialize(&(&v, 5u8)).map_err(|e| (C08, "save".to_string(), e.to_string()))?;
    let b: (TineTree<Num>, u8) = bincode::deserialize(&bytes).map_err(|e| (C08, "load".to_string(), e.to_string()))?;
    let text = serde_json::to_string(&v).map_err(|e| (C08, "save".to_string(), e.to_string()))?;
    let t: TineTree<Num> = serde_json::from_str(&text).map_err(|e| (C08, "load".to_string(), e.to_string()))?;
    if b.0 != v || b.1 != 5 || t != v { return fail(C08, "load", format!("a tree of {} intervals was restored differently", m.len())); }
    // Quadratic.
    let part = &m[m.len() - 1_500..];
    let u: Set = RawInterval::union_all(part.iter().rev().map(|r| tine_raw(r, top))).map(|i| tine_range(&i, top)).take(part.len() + 1).collect();
    if u.len() != part.len() || join(u.clone()) != part { return fail(C06, "union_all", format!("the union of {} separate intervals has {}", part.len(), u.len())); }
    Ok(())
}

/// A selection of more than a thousand intervals: its operations take time
/// quadratic in their number.
pub fn selection(seed: u64) -> Result<u64, Bad> { judged(|| big_selection(seed)) }
fn big_selection(seed: u64) -> Result<(), Bad> {
    let n = 1_030 + u128::from(mix(seed) % 270);
    let m = spread(n, seed, 1 + mix(seed ^ 3) % 9);
    let o = spread(n / 3, mix(seed ^ 5), 25);
    let max = TOP as u128;
    let mk = |x: u128| Num(x as i64);
    let iv = |r: &(u128, u128)| Interval::closed(mk(r.0), mk(r.1));
    let list = |t: &Selection<Num>| t.interval_iter().map(|i| match (i.lower_bound(), i.upper_bound()) {
        (Some(Bound::Include(a)), Some(Bound::Include(b))) => (a.0 as u128, b.0 as u128),
        _ => (1, 0),
    }).collect::<Set>();
    let v: Selection<Num> = if mix(seed ^ 4) % 2 == 0 { m.iter().map(iv).collect() } else {
        let mut v = Selection::new();
        v.extend(m.iter().map(iv));
        v
    };
    same(C01 | C06, "a collected selection", &list(&v), &m)?;
    let w: Selection<Num> = o.iter().map(iv).collect();
    for k in [0, 1, m.len() / 2, m.len() - 1, 1023, 1024] {
        for p in [m[k].0 - 1, m[k].0, m[k].1, m[k].1 + 1] {
            if v.contains(&mk(p)) != has(&m, p) { return fail(C01, "contains", format!("contains({p}) is wrong in a selection of {} intervals", m.len())); }
        }
    }
    let c = v.complement();
    same(C02, "a complement", &list(&c), &complement(&m, max))?;
    same(C02, "an intersection", &list(&v.intersect(&w)), &intersect(&m, &o))?;
    same(C02, "a difference", &list(&v.minus(&w)), &intersect(&m, &complement(&o, max)))?;
    same(C02, "a difference", &list(&w.minus(&v)), &intersect(&o, &complement(&m, max)))?;
    let u = v.union(&w);
    same(C02, "a union", &list(&u), &union(&m, &o))?;
    if v.intersects(&c) || !v.intersects(&u) { return fail(C02, "intersects", "intersects with the complement or a union".into()); }
    if v.union(&c) != Selection::full() { return fail(C02 | C03, "equality", "a selection with its complement is not full".into()); }
    let mut x = u;
    for r in &intersect(&o, &complement(&m, max)) { if mix(seed ^ r.0 as u64) % 64 == 0 { x.minus_in_place(iv(r)); } }
    let x = x.intersect(&v);
    if x != v || hash_of(&x) != hash_of(&v) || list(&x) != m { return fail(C02 | C03, "equality", "another history of the same points differs".into()); }
    let mut y = x;
    y.minus_in_place(iv(&m[m.len() - 1 - (mix(seed ^ 9) % 700) as usize]));
    if y == v { return fail(C03, "equality", "selections differing in one interval are equal".into()); }
    let total: u128 = m.iter().map(|r| r.1 - r.0 + 1).sum();
    if v.iter().count() as u128 != total || !v.iter().rev().map(|x| x.0 as u128).eq(m.iter().rev().flat_map(|r| (r.0..=r.1).rev())) {
        return fail(C04, "iteration", format!("the points of {} intervals", m.len()));
    }
    let bytes = bincode::serialize(&v).map_err(|e| (C08, "save".to_string(), e.to_string()))?;
    let b: Selection<Num> = bincode::deserialize(&bytes).map_err(|e| (C08, "load".to_string(), e.to_string()))?;
    if b != v || list(&b) != m { return fail(C08, "load", format!("a selection of {} intervals was restored differently", m.len())); }
    Ok(())
}

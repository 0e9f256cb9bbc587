//! The two kinds of system under simulation: selections over finite types and
//! tine trees over densely ordered ones, behind one interface, each with the
//! mapping between its values and cells of the reference model.

use crate::bits::Bits;
use crate::elem::Elem;
use crate::hook::{self, Out};
use normalize_interval::bound::Bound;
use normalize_interval::interval::Interval;
use normalize_interval::raw_interval::RawInterval;
use normalize_interval::selection::Selection;
use normalize_interval::tine_tree::TineTree;
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::VecDeque;
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum B { Inf, Inc(u128), Exc(u128) }

/// An interval by its bounds, over element indices.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Repr { Empty, R(B, B) }

/// The partition of the element type into model cells.
#[derive(Clone)]
pub struct Univ {
    pub cells: Vec<(u128, u128)>,
}

impl Univ {
    /// `windows`: (first index, length) of the individually modelled elements.
    pub fn new(max_ix: u128, windows: &[(u128, u32)]) -> Univ {
        let mut ws: Vec<(u128, u128)> = windows
            .iter()
            .map(|&(s, l)| {
                let s = s.min(max_ix);
                (s, s.saturating_add(u128::from(l.max(1)) - 1).min(max_ix))
            })
            .collect();
        ws.sort_unstable();
        let mut cells = Vec::new();
        let mut next = Some(0u128);
        for (s, e) in ws {
            let Some(n) = next else { break };
            if e < n { continue; }
            if s > n { cells.push((n, s - 1)); }
            let mut i = s.max(n);
            loop {
                if cells.len() + 2 > crate::bits::MAXCELLS { break; }
                cells.push((i, i));
                if i == e { break; }
                i += 1;
            }
            let last = cells.last().unwrap().1;
            next = if last == max_ix { None } else { Some(last + 1) };
        }
        if let Some(n) = next { cells.push((n, max_ix)); }
        Univ { cells }
    }
    pub fn len(&self) -> usize { self.cells.len() }
    pub fn single(&self, c: usize) -> bool { self.cells[c].0 == self.cells[c].1 }
    fn at_lo(&self, ix: u128) -> Option<usize> {
        self.cells.binary_search_by(|c| c.0.cmp(&ix)).ok()
    }
    fn at_hi(&self, ix: u128) -> Option<usize> {
        self.cells.binary_search_by(|c| c.1.cmp(&ix)).ok()
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Item { Pt(u128), Iv(Repr) }

/// What the two consumers of an iteration still have to deliver.
#[derive(Clone, Debug)]
pub enum Expect {
    Pts(VecDeque<(u128, u128)>),
    Ivs(VecDeque<Repr>),
}

impl Expect {
    pub fn front(&mut self) -> Option<Item> {
        match self {
            Expect::Ivs(q) => q.pop_front().map(Item::Iv),
            Expect::Pts(q) => {
                let (a, b) = q.front_mut()?;
                let x = *a;
                if a == b { q.pop_front(); } else { *a += 1; }
                Some(Item::Pt(x))
            }
        }
    }
    pub fn back(&mut self) -> Option<Item> {
        match self {
            Expect::Ivs(q) => q.pop_back().map(Item::Iv),
            Expect::Pts(q) => {
                let (a, b) = q.back_mut()?;
                let x = *b;
                if a == b { q.pop_back(); } else { *b -= 1; }
                Some(Item::Pt(x))
            }
        }
    }
    pub fn len(&self) -> u128 {
        match self {
            Expect::Ivs(q) => q.len() as u128,
            Expect::Pts(q) => q.iter().fold(0u128, |n, (a, b)| n.saturating_add((b - a).saturating_add(1))),
        }
    }
}

pub type StepOut = Out<Option<Item>>;

/// A running iteration, whatever its type.
pub trait DynIt {
    fn next(&mut self, budget: u64, arm: hook::Arm) -> (StepOut, hook::Report);
    fn next_back(&mut self, budget: u64, arm: hook::Arm) -> (StepOut, hook::Report);
    fn nth(&mut self, n: usize, back: bool, budget: u64) -> StepOut;
    fn hint(&mut self) -> Out<(usize, Option<usize>)>;
    /// Hands the iterator itself to a consuming adapter.
    fn drain(self: Box<Self>, how: u8, cap: usize, budget: u64) -> (Out<Vec<Item>>, u64);
}

struct Held<I: DoubleEndedIterator, K> {
    it: I,
    show: fn(I::Item) -> Item,
    /// `max` and `min`, where the items are ordered.
    ends: Option<[fn(I) -> Option<I::Item>; 2]>,
    _own: K,
}

impl<I, K> DynIt for Held<I, K>
where I: DoubleEndedIterator
{
    fn next(&mut self, budget: u64, arm: hook::Arm) -> (StepOut, hook::Report) {
        let (o, r) = hook::call(budget, arm, || self.it.next());
        (map_out(o, |x| x.map(self.show)), r)
    }
    fn next_back(&mut self, budget: u64, arm: hook::Arm) -> (StepOut, hook::Report) {
        let (o, r) = hook::call(budget, arm, || self.it.next_back());
        (map_out(o, |x| x.map(self.show)), r)
    }
    fn nth(&mut self, n: usize, back: bool, budget: u64) -> StepOut {
        let (o, _) = hook::call(budget, hook::NO_ARM, || {
            if back { self.it.nth_back(n) } else { self.it.nth(n) }
        });
        map_out(o, |x| x.map(self.show))
    }
    fn hint(&mut self) -> Out<(usize, Option<usize>)> {
        hook::call(100_000, hook::NO_ARM, || self.it.size_hint()).0
    }
    fn drain(self: Box<Self>, how: u8, cap: usize, budget: u64) -> (Out<Vec<Item>>, u64) {
        let Held { mut it, show, ends, _own } = *self;
        let (o, r) = hook::call(budget, hook::NO_ARM, move || -> (Vec<I::Item>, Option<usize>) {
            match how {
                0 => (it.by_ref().take(cap).collect(), None),
                1 => (it.by_ref().rev().take(cap).collect(), None),
                2 => { let mut v = Vec::new(); for x in it { v.push(x); if v.len() >= cap { break; } } (v, None) }
                3 => (it.fold(Vec::new(), |mut v, x| { v.push(x); v }), None),
                4 => (it.rfold(Vec::new(), |mut v, x| { v.push(x); v }), None),
                5 => { let n = it.count(); (Vec::new(), Some(n)) }
                6 => (it.last().into_iter().collect(), None),
                7 => (it.step_by(2).collect(), None),
                8 => (it.skip(1).collect(), None),
                9 => {
                    let mut v = Vec::new();
                    while v.len() < cap {
                        match it.next() { Some(x) => v.push(x), None => break }
                        match it.next_back() { Some(x) => v.push(x), None => break }
                    }
                    (v, None)
                }
                10 => (it.rev().skip(1).collect(), None),
                11 => (it.collect(), None),
                12 | 13 => match ends {
                    Some(f) => (f[how as usize - 12](it).into_iter().collect(), None),
                    None => if how == 12 { (it.last().into_iter().collect(), None) } else { (it.next().into_iter().collect(), None) },
                },
                14 | 15 => {
                    // Stops at the third item, then takes the rest.
                    let mut k = 0;
                    let mut third = |_: &I::Item| { k += 1; k == 3 };
                    let x = if how == 14 { it.find(&mut third) } else { it.rfind(&mut third) };
                    let mut v: Vec<I::Item> = x.into_iter().collect();
                    v.extend(it);
                    (v, None)
                }
                16 => {
                    let mut v = Vec::new();
                    let two = |x: I::Item, v: &mut Vec<I::Item>| { v.push(x); if v.len() % 2 == 0 { Err(()) } else { Ok(()) } };
                    let _ = it.try_for_each(|x| two(x, &mut v));
                    let _ = it.by_ref().rev().try_for_each(|x| two(x, &mut v));
                    v.extend(it.rev());
                    (v, None)
                }
                17 => { let mut v = Vec::new(); it.for_each(|x| v.push(x)); (v, None) }
                18 => {
                    let mut k = 0;
                    let n = it.position(|_| { k += 1; k == 4 });
                    let mut v: Vec<I::Item> = it.by_ref().rev().take(2).collect();
                    v.extend(it);
                    (v, Some(n.map_or(0, |n| n + 1)))
                }
                19 => {
                    let mut k = 0;
                    let any = it.any(|_| { k += 1; k == 2 });
                    let all = it.all(|_| { k += 1; k < 4 });
                    (it.rev().step_by(2).collect(), Some(usize::from(any) + 2 * usize::from(all)))
                }
                20 => { let (a, mut b): (Vec<_>, Vec<_>) = { let mut k = 0; it.partition(|_| { k += 1; k % 2 == 0 }) }; let mut v = a; v.append(&mut b); (v, None) }
                _ => (it.collect(), None),
            }
        });
        let n = r.count;
        (map_out(o, |(v, c)| {
            let mut out: Vec<Item> = v.into_iter().map(show).collect();
            if let Some(c) = c { out.push(Item::Pt(c as u128)); }
            out
        }), n)
    }
}

pub fn map_out<A, C>(o: Out<A>, f: impl FnOnce(A) -> C) -> Out<C> {
    match o {
        Out::Ok(a) => Out::Ok(f(a)),
        Out::Injected => Out::Injected,
        Out::Budget => Out::Budget,
        Out::Panic(s) => Out::Panic(s),
    }
}

/// What `drain(how)` must return for the remaining expectation.
pub fn expect_drain(mut e: Expect, how: u8, cap: usize) -> Vec<Item> {
    let mut v = Vec::new();
    match how {
        0 | 2 => while v.len() < cap { match e.front() { Some(x) => v.push(x), None => break } },
        1 => while v.len() < cap { match e.back() { Some(x) => v.push(x), None => break } },
        4 => while let Some(x) = e.back() { v.push(x) },
        5 => v.push(Item::Pt(e.len())),
        6 => if let Some(x) = e.back() { v.push(x) },
        7 => { let mut k = 0; while let Some(x) = e.front() { if k % 2 == 0 { v.push(x) } k += 1; } }
        8 => { e.front(); while let Some(x) = e.front() { v.push(x) } }
        9 => while v.len() < cap {
            match e.front() { Some(x) => v.push(x), None => break }
            match e.back() { Some(x) => v.push(x), None => break }
        },
        10 => { e.back(); while let Some(x) = e.back() { v.push(x) } }
        12 => if let Some(x) = e.back() { v.push(x) },
        13 => if let Some(x) = e.front() { v.push(x) },
        14 | 15 => {
            let mut x = None;
            for _ in 0..3 { x = if how == 14 { e.front() } else { e.back() }; }
            v.extend(x);
            while let Some(x) = e.front() { v.push(x) }
        }
        16 => {
            for _ in 0..2 { match e.front() { Some(x) => v.push(x), None => break } }
            loop { match e.back() { Some(x) => v.push(x), None => break } if v.len() % 2 == 0 { break; } }
            while let Some(x) = e.back() { v.push(x) }
        }
        18 => {
            let mut n = 0;
            for k in 1..=4 { match e.front() { Some(_) => if k == 4 { n = 4 }, None => break } }
            for _ in 0..2 { v.extend(e.back()); }
            while let Some(x) = e.front() { v.push(x) }
            v.push(Item::Pt(n));
        }
        19 => {
            let (mut k, mut any, mut all) = (0, false, true);
            while !any { if e.front().is_none() { break; } k += 1; any = k == 2; }
            while all { if e.front().is_none() { break; } k += 1; all = k < 4; }
            let mut j = 0;
            while let Some(x) = e.back() { if j % 2 == 0 { v.push(x) } j += 1; }
            v.push(Item::Pt(u128::from(any) + 2 * u128::from(all)));
        }
        20 => {
            let (mut a, mut b) = (Vec::new(), Vec::new());
            let mut k = 0;
            while let Some(x) = e.front() { k += 1; if k % 2 == 0 { a.push(x) } else { b.push(x) } }
            v = a;
            v.append(&mut b);
        }
        _ => while let Some(x) = e.front() { v.push(x) },
    }
    v
}

pub fn drain_cap(how: u8) -> bool { matches!(how, 0 | 1 | 2 | 9) }
pub const DRAINS: u8 = 21;

fn extend_lifetime<V>(v: &Arc<V>) -> &'static V {
    // The holder keeps the Arc alive for as long as the iterator, and the
    // simulator replaces a shared value instead of changing it in place.
    unsafe { &*Arc::as_ptr(v) }
}

pub fn bound<T: Elem>(b: B) -> Bound<T> {
    match b {
        B::Inf => Bound::Infinite,
        B::Inc(x) => Bound::Include(T::mk(x)),
        B::Exc(x) => Bound::Exclude(T::mk(x)),
    }
}
fn unbound<T: Elem>(b: &Bound<T>) -> B {
    match b {
        Bound::Infinite => B::Inf,
        Bound::Include(x) => B::Inc(x.ix()),
        Bound::Exclude(x) => B::Exc(x.ix()),
    }
}
fn repr_of<T: Elem>(lo: Option<Bound<T>>, hi: Option<Bound<T>>) -> Repr {
    match (lo, hi) {
        (Some(l), Some(h)) => Repr::R(unbound(&l), unbound(&h)),
        _ => Repr::Empty,
    }
}

pub const INTERVAL_STYLES: u8 = 18;

pub trait Dom: 'static {
    type T: Elem;
    type V: Clone + Eq + Hash + Debug + Serialize + DeserializeOwned + 'static;
    type Iv: Clone + Eq + Hash + Debug + Serialize + DeserializeOwned + 'static;
    const TREE: bool;
    const ITERS: u8;
    /// Elements an instrumented element type needs for `n` named ones.
    fn elements(n: usize) -> usize { if Self::TREE { 2 * n + 1 } else { n } }
    fn make(u: Univ) -> Self;
    fn cells(&self) -> usize;
    /// Elements at which membership can be observed, with their cell.
    fn probes(&self) -> Vec<(u128, usize)>;
    /// Cells that one element occupies alone.
    fn is_point(&self, c: usize) -> bool;
    fn point_ix(&self, c: usize) -> u128;
    /// Number of end point arguments a client can name.
    fn args(&self) -> usize;
    /// The expected cells of `iv(style, a, b)`.
    fn iv_model(&self, style: u8, a: usize, b: usize) -> Bits;
    fn iv(&self, style: u8, a: usize, b: usize) -> Self::Iv;
    /// The elements an interval constructor call needs, made beforehand.
    fn decode(&self, iv: &Self::Iv) -> Repr;
    fn cells_of(&self, r: Repr) -> Option<Bits>;
    fn expect_runs(&self, m: &Bits) -> Vec<Repr>;
    fn expect_hull(&self, m: &Bits) -> Repr;
    fn expect_closure(&self, m: &Bits) -> Repr;
    /// The reference form of an interval with the given bounds.
    fn reference(&self, r: Repr) -> Self::Iv;
    fn is_single(&self, iv: &Self::Iv) -> Option<bool>;

    fn new_value(how: u8) -> Self::V;
    fn full_value(how: u8) -> Self::V;
    fn from_iv(iv: Self::Iv, how: u8) -> Self::V;
    fn collect_iv(it: &mut dyn Iterator<Item = Self::Iv>, how: u8) -> Self::V;
    fn collect_pt(it: &mut dyn Iterator<Item = Self::T>) -> Self::V;
    fn extend_iv(v: &mut Self::V, it: &mut dyn Iterator<Item = Self::Iv>);
    fn in_place(v: &mut Self::V, op: u8, iv: Self::Iv);
    fn complement(v: &Self::V) -> Self::V;
    fn intersect(v: &Self::V, o: &Self::V) -> Self::V;
    fn union(v: &Self::V, o: &Self::V) -> Self::V;
    fn minus(v: &Self::V, o: &Self::V) -> Self::V;
    fn intersects(v: &Self::V, o: &Self::V) -> bool;
    fn is_empty(v: &Self::V) -> bool;
    fn is_full(v: &Self::V) -> bool;
    fn contains(v: &Self::V, p: &Self::T) -> bool;
    fn enclose(v: &Self::V) -> Self::Iv;
    fn closure(v: &Self::V) -> Self::Iv;
    fn bounds(v: &Self::V) -> (Option<Bound<Self::T>>, Option<Bound<Self::T>>);
    /// Outermost values as reported, only compared between equal values.
    fn extremes(v: &Self::V) -> (Option<Self::T>, Option<Self::T>);
    fn list(v: &Self::V) -> Vec<Self::Iv>;
    fn into_list(v: Self::V) -> Vec<Self::Iv>;

    fn iv_is_empty(i: &Self::Iv) -> bool;
    fn iv_contains(i: &Self::Iv, p: &Self::T) -> bool;
    fn iv_intersects(i: &Self::Iv, j: &Self::Iv) -> bool;
    fn iv_intersect(i: &Self::Iv, j: &Self::Iv) -> Self::Iv;
    fn iv_enclose(i: &Self::Iv, j: &Self::Iv) -> Self::Iv;
    fn iv_closure(i: &Self::Iv) -> Self::Iv;
    fn iv_complement(i: &Self::Iv) -> Vec<Self::Iv>;
    fn iv_union(i: &Self::Iv, j: &Self::Iv) -> Vec<Self::Iv>;
    fn iv_minus(i: &Self::Iv, j: &Self::Iv) -> Vec<Self::Iv>;

    /// Opens an iteration over a snapshot of `v` (or of `iv`).
    fn open(&self, kind: u8, v: &Arc<Self::V>, iv: &Self::Iv) -> Option<Box<dyn DynIt>>;
    fn open_expect(&self, kind: u8, m: &Bits, im: &Bits) -> Expect;
    fn open_fused(kind: u8) -> bool;
}

////////////////////////////////////////////////////////////////////////////////
// Selections
////////////////////////////////////////////////////////////////////////////////

pub struct Sel<T> { u: Univ, _t: std::marker::PhantomData<T> }

impl<T: Elem> Sel<T> {
    fn lo(&self, c: usize) -> u128 { self.u.cells[c].0 }
    fn hi(&self, c: usize) -> u128 { self.u.cells[c].1 }
    /// Cell range (lo inclusive, hi exclusive) of a style. None: a single call
    /// whose outcome the model cannot express, replaced by `closed`.
    fn shape(&self, style: u8, a: usize, b: usize) -> (u8, usize, usize) {
        let n = self.u.len();
        let one = |c: usize| self.u.single(c);
        let style = match style {
            // left_open(p, p) and right_open(p, p) are the point p.
            2 | 3 | 4 | 5 if a == b && !one(a) => 0,
            12 | 15 if !one(a) => 0,
            14 if a == b => 0, // an empty `a..a` is documented nowhere
            13 if a == b && !one(a) => 0,
            s if s >= INTERVAL_STYLES => 0,
            s => s,
        };
        let span = |l: usize, h: usize| if l < h { (l, h) } else { (0, 0) };
        let (l, h) = match style {
            0 => span(a, b + 1),
            1 => span(a + 1, b),
            2 | 5 => if a == b { (a, a + 1) } else { span(a + 1, b + 1) },
            3 | 4 => if a == b { (a, a + 1) } else { span(a, b) },
            6 => (a, n),
            7 => (0, a + 1),
            8 => span(a + 1, n),
            9 => span(0, a),
            10 => (0, n),
            11 => (0, 0),
            12 | 15 => (a, a + 1),
            13 => {
                let (lk, uk) = ((a + b) % 3, (a + 2 * b) % 3);
                if a == b && lk != uk && lk < 2 && uk < 2 { (a, a + 1) }
                else {
                    let l = match lk { 0 => a, 1 => a + 1, _ => 0 };
                    let h = match uk { 0 => b + 1, 1 => b, _ => n };
                    span(l, h)
                }
            }
            14 => span(a, b),
            16 => match (a + b) % 3 { 0 => (a, n), 1 => span(0, a), _ => (0, a + 1) },
            17 => {
                // A raw interval, by its variant; never reversed.
                let (x, y) = (a.min(b), a.max(b));
                match (a + 3 * b) % 7 {
                    0 => (x, y + 1),
                    1 if x != y => span(x + 1, y),
                    2 if x != y => (x + 1, y + 1),
                    3 if x != y => (x, y),
                    4 => span(0, a),
                    5 => span(a + 1, n),
                    _ => (0, a + 1),
                }
            }
            _ => (0, 0),
        };
        (style, l, h)
    }
}

impl<T: Elem> Dom for Sel<T> {
    type T = T;
    type V = Selection<T>;
    type Iv = Interval<T>;
    const TREE: bool = false;
    const ITERS: u8 = 8;

    fn make(u: Univ) -> Self { Sel { u, _t: std::marker::PhantomData } }
    fn cells(&self) -> usize { self.u.len() }
    fn args(&self) -> usize { self.u.len() }
    fn probes(&self) -> Vec<(u128, usize)> {
        let mut v = Vec::new();
        for (c, &(l, h)) in self.u.cells.iter().enumerate() {
            v.push((l, c));
            if l != h {
                v.push((h, c));
                v.push((l + (h - l) / 2, c));
            }
        }
        v
    }
    fn is_point(&self, c: usize) -> bool { self.u.single(c) }
    fn point_ix(&self, c: usize) -> u128 { self.lo(c) }
    fn iv_model(&self, style: u8, a: usize, b: usize) -> Bits {
        let (_, l, h) = self.shape(style, a, b);
        Bits::run(l, h)
    }
    fn iv(&self, style: u8, a: usize, b: usize) -> Interval<T> {
        let (style, _, _) = self.shape(style, a, b);
        let (la, ha) = (T::mk(self.lo(a)), T::mk(self.hi(a)));
        let (lb, hb) = (T::mk(self.lo(b)), T::mk(self.hi(b)));
        match style {
            0 => Interval::closed(la, hb),
            1 => Interval::open(ha, lb),
            2 => Interval::left_open(ha, hb),
            3 => Interval::right_open(la, lb),
            4 => Interval::left_closed(la, lb),
            5 => Interval::right_closed(ha, hb),
            6 => Interval::unbounded_from(la),
            7 => Interval::unbounded_to(ha),
            8 => Interval::unbounded_up_from(ha),
            9 => Interval::unbounded_up_to(la),
            10 => if a % 2 == 0 { Interval::full() } else { Interval::from(..) },
            11 => if a % 2 == 0 { Interval::empty() } else { Interval::default() },
            12 => Interval::point(la),
            13 => {
                let l = match (a + b) % 3 { 0 => Bound::Include(la), 1 => Bound::Exclude(ha), _ => Bound::Infinite };
                let u = match (a + 2 * b) % 3 { 0 => Bound::Include(hb), 1 => Bound::Exclude(lb), _ => Bound::Infinite };
                Interval::new(l, u)
            }
            14 => Interval::from(la..lb),
            15 => Interval::from(la),
            16 => match (a + b) % 3 {
                0 => Interval::from(la..),
                1 => Interval::from(..la),
                _ => Interval::from(..=ha),
            },
            17 => {
                let (x, y) = (a.min(b), a.max(b));
                let (lx, hx) = (T::mk(self.lo(x)), T::mk(self.hi(x)));
                let (ly, hy) = (T::mk(self.lo(y)), T::mk(self.hi(y)));
                Interval::from(match (a + 3 * b) % 7 {
                    0 => RawInterval::Closed(lx, hy),
                    1 if x != y => RawInterval::Open(hx, ly),
                    2 if x != y => RawInterval::LeftOpen(hx, hy),
                    3 if x != y => RawInterval::RightOpen(lx, ly),
                    4 => RawInterval::UpTo(la),
                    5 => RawInterval::UpFrom(ha),
                    _ => RawInterval::To(ha),
                })
            }
            _ => unreachable!(),
        }
    }
    fn decode(&self, iv: &Interval<T>) -> Repr { repr_of(iv.lower_bound(), iv.upper_bound()) }
    fn cells_of(&self, r: Repr) -> Option<Bits> {
        match r {
            Repr::Empty => Some(Bits::EMPTY),
            Repr::R(B::Inc(l), B::Inc(h)) => {
                let (l, h) = (self.u.at_lo(l)?, self.u.at_hi(h)?);
                if l <= h { Some(Bits::run(l, h + 1)) } else { None }
            }
            _ => None,
        }
    }
    fn expect_runs(&self, m: &Bits) -> Vec<Repr> {
        m.runs().into_iter().map(|(a, b)| Repr::R(B::Inc(self.lo(a)), B::Inc(self.hi(b)))).collect()
    }
    fn expect_hull(&self, m: &Bits) -> Repr {
        match (m.first(), m.last()) {
            (Some(a), Some(b)) => Repr::R(B::Inc(self.lo(a)), B::Inc(self.hi(b))),
            _ => Repr::Empty,
        }
    }
    fn expect_closure(&self, m: &Bits) -> Repr { self.expect_hull(m) }
    fn reference(&self, r: Repr) -> Interval<T> {
        match r {
            Repr::R(B::Inc(l), B::Inc(h)) => Interval::closed(T::mk(l), T::mk(h)),
            Repr::Empty => Interval::empty(),
            Repr::R(l, h) => Interval::new(bound(l), bound(h)),
        }
    }
    fn is_single(&self, iv: &Interval<T>) -> Option<bool> { Some(iv.is_degenerate()) }

    fn new_value(how: u8) -> Selection<T> {
        match how % 4 {
            0 => Selection::new(),
            1 => Selection::empty(),
            2 => Selection::default(),
            _ => Selection::from(Interval::empty()),
        }
    }
    fn full_value(how: u8) -> Selection<T> {
        if how % 2 == 0 { Selection::full() } else { Selection::from(Interval::full()) }
    }
    fn from_iv(iv: Interval<T>, how: u8) -> Selection<T> {
        match how % 3 {
            0 => Selection::from(iv),
            1 => iv.into(),
            _ => std::iter::once(iv).collect(),
        }
    }
    fn collect_iv(it: &mut dyn Iterator<Item = Interval<T>>, _how: u8) -> Selection<T> { it.collect() }
    fn collect_pt(it: &mut dyn Iterator<Item = T>) -> Selection<T> { it.collect() }
    fn extend_iv(v: &mut Selection<T>, it: &mut dyn Iterator<Item = Interval<T>>) { v.extend(it) }
    fn in_place(v: &mut Selection<T>, op: u8, iv: Interval<T>) {
        match op {
            0 => v.union_in_place(iv),
            1 => v.intersect_in_place(iv),
            _ => v.minus_in_place(iv),
        }
    }
    fn complement(v: &Selection<T>) -> Selection<T> { v.complement() }
    fn intersect(v: &Selection<T>, o: &Selection<T>) -> Selection<T> { v.intersect(o) }
    fn union(v: &Selection<T>, o: &Selection<T>) -> Selection<T> { v.union(o) }
    fn minus(v: &Selection<T>, o: &Selection<T>) -> Selection<T> { v.minus(o) }
    fn intersects(v: &Selection<T>, o: &Selection<T>) -> bool { v.intersects(o) }
    fn is_empty(v: &Selection<T>) -> bool { v.is_empty() }
    fn is_full(v: &Selection<T>) -> bool { v.is_full() }
    fn contains(v: &Selection<T>, p: &T) -> bool { v.contains(p) }
    fn enclose(v: &Selection<T>) -> Interval<T> { v.enclose() }
    fn closure(v: &Selection<T>) -> Interval<T> { v.closure() }
    fn bounds(v: &Selection<T>) -> (Option<Bound<T>>, Option<Bound<T>>) { (v.lower_bound(), v.upper_bound()) }
    fn extremes(v: &Selection<T>) -> (Option<T>, Option<T>) { (v.infimum(), v.supremum()) }
    fn list(v: &Selection<T>) -> Vec<Interval<T>> { v.interval_iter().collect() }
    fn into_list(v: Selection<T>) -> Vec<Interval<T>> { v.into_interval_iter().collect() }

    fn iv_is_empty(i: &Interval<T>) -> bool { i.is_empty() }
    fn iv_contains(i: &Interval<T>, p: &T) -> bool { i.contains(p) }
    fn iv_intersects(i: &Interval<T>, j: &Interval<T>) -> bool { i.intersects(j) }
    fn iv_intersect(i: &Interval<T>, j: &Interval<T>) -> Interval<T> { i.intersect(j) }
    fn iv_enclose(i: &Interval<T>, j: &Interval<T>) -> Interval<T> { i.enclose(j) }
    fn iv_closure(i: &Interval<T>) -> Interval<T> { i.closure() }
    fn iv_complement(i: &Interval<T>) -> Vec<Interval<T>> { i.complement().collect() }
    fn iv_union(i: &Interval<T>, j: &Interval<T>) -> Vec<Interval<T>> { i.union(j).collect() }
    fn iv_minus(i: &Interval<T>, j: &Interval<T>) -> Vec<Interval<T>> { i.minus(j).collect() }

    fn open(&self, kind: u8, v: &Arc<Selection<T>>, iv: &Interval<T>) -> Option<Box<dyn DynIt>> {
        fn pt<T: Elem>(x: T) -> Item { Item::Pt(x.ix()) }
        fn it<T: Elem>(x: Interval<T>) -> Item { Item::Iv(repr_of(x.lower_bound(), x.upper_bound())) }
        let own = v.clone();
        let r = extend_lifetime(v);
        let b: u64 = 1_000_000;
        macro_rules! held {
            (@ $e:expr, $show:expr, $ends:expr) => {{
                match hook::call(b, hook::NO_ARM, || $e).0 {
                    Out::Ok(i) => Some(Box::new(Held { it: i, show: $show, ends: $ends, _own: own }) as Box<dyn DynIt>),
                    _ => None,
                }
            }};
            ($e:expr, pt) => { held!(@ $e, pt, Some([|i| i.max(), |i| i.min()])) };
            ($e:expr, it) => { held!(@ $e, it, None) };
        }
        match kind {
            0 => held!(r.iter(), pt),
            1 => { let c = (**v).clone(); held!(c.into_iter(), pt) }
            2 => held!(r.interval_iter(), it),
            3 => { let c = (**v).clone(); held!(c.into_interval_iter(), it) }
            4 => held!(iv.iter(), pt),
            6 => { let c = iv.clone(); held!(c.into_iter(), pt) }
            7 => { let c = iv.clone(); held!((&c).into_iter(), pt) }
            _ => held!(r.into_iter(), pt),
        }
    }
    fn open_expect(&self, kind: u8, m: &Bits, im: &Bits) -> Expect {
        let pts = |m: &Bits| m.runs().into_iter().map(|(a, b)| (self.lo(a), self.hi(b))).collect();
        match kind {
            2 | 3 => Expect::Ivs(self.expect_runs(m).into()),
            4 | 6 | 7 => Expect::Pts(pts(im)),
            _ => Expect::Pts(pts(m)),
        }
    }
    fn open_fused(_kind: u8) -> bool { true }
}

////////////////////////////////////////////////////////////////////////////////
// Tine trees
////////////////////////////////////////////////////////////////////////////////

/// The points clients name as end points and the gaps around them, taken as
/// dense: cell 2i+1 is the i-th point, and each cell c, gap or point, has the
/// element of index c as its witness.
pub struct Tree<T> { n: usize, _t: std::marker::PhantomData<T> }

impl<T: Elem> Tree<T> {
    fn shape(&self, style: u8, a: usize, b: usize) -> (usize, usize) {
        let c = self.cells();
        let span = |l: usize, h: usize| if l < h { (l, h) } else { (0, 0) };
        let (pa, pb) = (2 * a + 1, 2 * b + 1);
        let pt = (pa, pa + 1);
        match style {
            0 | 14 | 17 => span(pa, pb + 1),
            1 => if a < b { (pa + 1, pb) } else { (0, 0) },
            2 | 5 => if a == b { pt } else { span(pa + 1, pb + 1) },
            3 | 4 => if a == b { pt } else { span(pa, pb) },
            6 => (pa, c),
            7 => (0, pa + 1),
            8 => (pa + 1, c),
            9 => (0, pa),
            10 => (0, c),
            11 => (0, 0),
            12 | 15 => pt,
            _ => {
                let (lk, uk) = ((a + b) % 3, (a + 2 * b) % 3);
                if lk < 2 && uk < 2 && a == b { if lk == 1 && uk == 1 { (0, 0) } else { pt } }
                else {
                    let l = match lk { 0 => pa, 1 => pa + 1, _ => 0 };
                    let h = match uk { 0 => pb + 1, 1 => pb, _ => c };
                    if lk < 2 && uk < 2 && a > b { (0, 0) } else { span(l, h) }
                }
            }
        }
    }
    fn lower(&self, c: usize) -> B {
        if c == 0 { B::Inf } else if c % 2 == 1 { B::Inc(c as u128) } else { B::Exc(c as u128 - 1) }
    }
    fn upper(&self, c: usize) -> B {
        if c == self.cells() - 1 { B::Inf } else if c % 2 == 1 { B::Inc(c as u128) } else { B::Exc(c as u128 + 1) }
    }
}

impl<T: Elem> Dom for Tree<T> {
    type T = T;
    type V = TineTree<T>;
    type Iv = RawInterval<T>;
    const TREE: bool = true;
    const ITERS: u8 = 2;

    fn make(u: Univ) -> Self { Tree { n: u.len(), _t: std::marker::PhantomData } }
    fn cells(&self) -> usize { 2 * self.n + 1 }
    fn args(&self) -> usize { self.n }
    fn probes(&self) -> Vec<(u128, usize)> { (0..self.cells()).map(|c| (c as u128, c)).collect() }
    fn is_point(&self, c: usize) -> bool { c % 2 == 1 }
    fn point_ix(&self, c: usize) -> u128 { c as u128 }
    fn iv_model(&self, style: u8, a: usize, b: usize) -> Bits {
        let (l, h) = self.shape(style, a, b);
        Bits::run(l, h)
    }
    fn iv(&self, style: u8, a: usize, b: usize) -> RawInterval<T> {
        let (x, y) = (T::mk(2 * a as u128 + 1), T::mk(2 * b as u128 + 1));
        match style {
            0 | 14 | 17 => RawInterval::closed(x, y),
            1 => RawInterval::open(x, y),
            2 | 5 => RawInterval::left_open(x, y),
            3 | 4 => RawInterval::right_open(x, y),
            6 => RawInterval::From(x),
            7 => RawInterval::To(x),
            8 => RawInterval::UpFrom(x),
            9 => RawInterval::UpTo(x),
            10 => RawInterval::Full,
            11 => RawInterval::Empty,
            12 | 15 => RawInterval::Point(x),
            _ => {
                let l = match (a + b) % 3 { 0 => Bound::Include(x), 1 => Bound::Exclude(x), _ => Bound::Infinite };
                let u = match (a + 2 * b) % 3 { 0 => Bound::Include(y), 1 => Bound::Exclude(y), _ => Bound::Infinite };
                RawInterval::new(l, u)
            }
        }
    }
    fn decode(&self, iv: &RawInterval<T>) -> Repr { repr_of(iv.lower_bound(), iv.upper_bound()) }
    fn cells_of(&self, r: Repr) -> Option<Bits> {
        let Repr::R(l, h) = r else { return Some(Bits::EMPTY) };
        let ok = |x: u128| if x % 2 == 1 && x < self.cells() as u128 { Some(x as usize) } else { None };
        let l = match l { B::Inf => 0, B::Inc(x) => ok(x)?, B::Exc(x) => ok(x)? + 1 };
        let h = match h { B::Inf => self.cells(), B::Inc(x) => ok(x)? + 1, B::Exc(x) => ok(x)? };
        if l < h { Some(Bits::run(l, h)) } else { None }
    }
    fn expect_runs(&self, m: &Bits) -> Vec<Repr> {
        m.runs().into_iter().map(|(a, b)| Repr::R(self.lower(a), self.upper(b))).collect()
    }
    fn expect_hull(&self, m: &Bits) -> Repr {
        match (m.first(), m.last()) {
            (Some(a), Some(b)) => Repr::R(self.lower(a), self.upper(b)),
            _ => Repr::Empty,
        }
    }
    fn expect_closure(&self, m: &Bits) -> Repr {
        let inc = |b: B| match b { B::Exc(x) => B::Inc(x), b => b };
        match self.expect_hull(m) { Repr::R(l, h) => Repr::R(inc(l), inc(h)), e => e }
    }
    fn reference(&self, r: Repr) -> RawInterval<T> {
        match r {
            Repr::Empty => RawInterval::Empty,
            Repr::R(l, h) => RawInterval::new(bound(l), bound(h)),
        }
    }
    fn is_single(&self, _iv: &RawInterval<T>) -> Option<bool> { None }

    fn new_value(how: u8) -> TineTree<T> {
        match how % 3 {
            0 => TineTree::new(),
            1 => TineTree::default(),
            _ => TineTree::from(RawInterval::Empty),
        }
    }
    fn full_value(_how: u8) -> TineTree<T> { TineTree::from(RawInterval::Full) }
    fn from_iv(iv: RawInterval<T>, how: u8) -> TineTree<T> {
        match how % 3 {
            0 => TineTree::from(iv),
            1 => TineTree::from_raw_interval(iv),
            _ => std::iter::once(iv).collect(),
        }
    }
    fn collect_iv(it: &mut dyn Iterator<Item = RawInterval<T>>, how: u8) -> TineTree<T> {
        if how % 2 == 0 { it.collect() } else { TineTree::from(it) }
    }
    fn collect_pt(it: &mut dyn Iterator<Item = T>) -> TineTree<T> { it.map(RawInterval::Point).collect() }
    fn extend_iv(v: &mut TineTree<T>, it: &mut dyn Iterator<Item = RawInterval<T>>) {
        for i in it { v.union_in_place(&i); }
    }
    fn in_place(v: &mut TineTree<T>, op: u8, iv: RawInterval<T>) {
        match op {
            0 => v.union_in_place(&iv),
            1 => v.intersect_in_place(&iv),
            _ => v.minus_in_place(&iv),
        }
    }
    fn complement(v: &TineTree<T>) -> TineTree<T> { v.complement() }
    fn intersect(v: &TineTree<T>, o: &TineTree<T>) -> TineTree<T> { v.intersect(o) }
    fn union(v: &TineTree<T>, o: &TineTree<T>) -> TineTree<T> { v.union(o) }
    fn minus(v: &TineTree<T>, o: &TineTree<T>) -> TineTree<T> { v.minus(o) }
    fn intersects(v: &TineTree<T>, o: &TineTree<T>) -> bool { !v.intersect(o).is_empty() }
    fn is_empty(v: &TineTree<T>) -> bool { v.is_empty() }
    fn is_full(v: &TineTree<T>) -> bool { v.is_full() }
    fn contains(v: &TineTree<T>, p: &T) -> bool { v.contains(p) }
    fn enclose(v: &TineTree<T>) -> RawInterval<T> { v.enclose() }
    fn closure(v: &TineTree<T>) -> RawInterval<T> { v.closure() }
    fn bounds(v: &TineTree<T>) -> (Option<Bound<T>>, Option<Bound<T>>) { (v.lower_bound(), v.upper_bound()) }
    fn extremes(_v: &TineTree<T>) -> (Option<T>, Option<T>) { (None, None) }
    fn list(v: &TineTree<T>) -> Vec<RawInterval<T>> { v.interval_iter().collect() }
    fn into_list(v: TineTree<T>) -> Vec<RawInterval<T>> { v.into_iter().collect() }

    fn iv_is_empty(i: &RawInterval<T>) -> bool { i.is_empty() }
    fn iv_contains(i: &RawInterval<T>, p: &T) -> bool { i.contains(p) }
    fn iv_intersects(i: &RawInterval<T>, j: &RawInterval<T>) -> bool { i.intersects(j) }
    fn iv_intersect(i: &RawInterval<T>, j: &RawInterval<T>) -> RawInterval<T> { i.intersect(j) }
    fn iv_enclose(i: &RawInterval<T>, j: &RawInterval<T>) -> RawInterval<T> { i.enclose(j) }
    fn iv_closure(i: &RawInterval<T>) -> RawInterval<T> { i.closure() }
    fn iv_complement(i: &RawInterval<T>) -> Vec<RawInterval<T>> { i.complement().collect() }
    fn iv_union(i: &RawInterval<T>, j: &RawInterval<T>) -> Vec<RawInterval<T>> { i.union(j).collect() }
    fn iv_minus(i: &RawInterval<T>, j: &RawInterval<T>) -> Vec<RawInterval<T>> { i.minus(j).collect() }

    fn open(&self, kind: u8, v: &Arc<TineTree<T>>, _iv: &RawInterval<T>) -> Option<Box<dyn DynIt>> {
        fn it<T: Elem>(x: RawInterval<T>) -> Item { Item::Iv(repr_of(x.lower_bound(), x.upper_bound())) }
        let own = v.clone();
        let r = extend_lifetime(v);
        let b: u64 = 1_000_000;
        match kind {
            0 => match hook::call(b, hook::NO_ARM, || r.interval_iter()).0 {
                Out::Ok(i) => Some(Box::new(Held { it: i, show: it, ends: None, _own: own })),
                _ => None,
            },
            _ => { let c = (**v).clone(); match hook::call(b, hook::NO_ARM, || c.into_iter()).0 {
                Out::Ok(i) => Some(Box::new(Held { it: i, show: it, ends: None, _own: own })),
                _ => None,
            } }
        }
    }
    fn open_expect(&self, _kind: u8, m: &Bits, _im: &Bits) -> Expect { Expect::Ivs(self.expect_runs(m).into()) }
    fn open_fused(_kind: u8) -> bool { false }
}

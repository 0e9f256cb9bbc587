//! One simulated system: shared registers holding values of the library, a
//! simulated disk, clients issuing operations in an order the plan decides,
//! and a reference model that every observation is checked against.

use crate::bits::Bits;
use crate::disk::{Disk, DiskFault, Io, Reader, Writer};
use crate::dom::*;
use crate::elem::{self, Elem};
use crate::hook::{self, Arm, Mode, Out, NO_ARM};
use crate::plan::*;
use crate::rng::{mix, Rng};
use serde::Serialize;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use std::sync::Arc;

pub const C01: u32 = 1 << 1;
pub const C02: u32 = 1 << 2;
pub const C03: u32 = 1 << 3;
pub const C04: u32 = 1 << 4;
pub const C05: u32 = 1 << 5;
pub const C06: u32 = 1 << 6;
pub const C07: u32 = 1 << 7;
pub const C08: u32 = 1 << 8;
pub const C09: u32 = 1 << 9;
pub const C10: u32 = 1 << 10;
pub const C11: u32 = 1 << 11;
pub const C12: u32 = 1 << 12;
pub const C13: u32 = 1 << 13;
pub const C14: u32 = 1 << 14;
const CONTENT: u32 = C01 | C02 | C03;

pub fn prop_bit(p: &str) -> u32 {
    p.strip_prefix('C').and_then(|n| n.parse::<u32>().ok()).map_or(0, |n| 1 << n)
}

#[derive(Debug, Clone, Serialize)]
pub struct Viol { pub owners: u32, pub class: String, pub msg: String, pub step: usize }

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub steps: u64,
    pub calls: u64,
    pub elem_ops: u64,
    pub oracle: u64,
    /// Digests of the non-trivial runs.
    pub runs: HashSet<u64>,
    /// Largest share of the element-operation bound an operation used, in percent.
    pub peak: u64,
}

impl Stats {
    pub fn hit(&mut self, k: &str) { self.add(k, 1); }
    pub fn add(&mut self, k: &str, n: u64) {
        if n == 0 { return; }
        if let Some(x) = self.n.get_mut(k) { *x += n; } else { self.n.insert(k.to_string(), n); }
    }
}

pub struct RunResult {
    pub viol: Option<Viol>,
    pub foreign: Option<Viol>,
    pub digest: u64,
    pub nontrivial: bool,
}

thread_local! {
    static NEST_FAIL: RefCell<Option<String>> = const { RefCell::new(None) };
}

struct Reg<D: Dom> { v: Arc<D::V>, m: Bits, taint: u32 }
struct IvReg<D: Dom> { v: D::Iv, m: Bits, taint: u32 }
struct Slot { it: Box<dyn DynIt>, exp: Expect, k: usize, fused: bool, done: bool }
enum Saved<D: Dom> { V(D::V, Bits), I(D::Iv, Bits), Torn(bool) }
struct Doc<D: Dom> { fmt: u8, what: Saved<D> }

/// Which representations of a value disagree with the model.
type R<T = ()> = Result<T, Viol>;

pub fn budget(k: usize) -> u64 {
    let k = k as u64 + 2;
    600 + 40 * k * k + k * k * k
}

pub struct Machine<'s, D: Dom> {
    d: D,
    n: usize,
    mine: u32,
    regs: Vec<Reg<D>>,
    ivs: Vec<IvReg<D>>,
    slots: Vec<Option<Slot>>,
    disk: Disk,
    docs: Vec<Option<Doc<D>>>,
    step: usize,
    digest: u64,
    st: &'s mut Stats,
    owned_oracles: u64,
    faults_fired: u64,
    tight: bool,
}

fn hash_of<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

/// A library operation on private values, run from inside an element
/// operation or a stream of another one.
fn nested<D: Dom>(d: &D) -> Result<(), String> {
    let n = d.args();
    let (a, b) = (n / 3, (2 * n / 3).min(n - 1));
    let out = hook::call(1_000_000, NO_ARM, || {
        let mut v = D::from_iv(d.iv(0, 0, n - 1), 0);
        D::in_place(&mut v, 2, d.iv(0, a, b));
        let mut w = D::new_value(0);
        D::in_place(&mut w, 0, d.iv(12, a, a));
        (D::union(&v, &w), D::intersect(&v, &w))
    }).0;
    let (u, i) = match out {
        Out::Ok(x) => x,
        Out::Panic(m) => return Err(format!("nested operation panicked: {m}")),
        _ => return Err("nested operation did not finish".into()),
    };
    let vm = d.iv_model(0, 0, n - 1).sub(d.iv_model(0, a, b));
    let wm = d.iv_model(12, a, a);
    for (x, m) in [(u, vm.or(wm)), (i, vm.and(wm))] {
        let got: Vec<Repr> = D::list(&x).iter().map(|i| d.decode(i)).collect();
        let want = d.expect_runs(&m);
        if got != want { return Err(format!("nested operation gave {got:?}, not {want:?}")); }
    }
    Ok(())
}

struct StreamIt<I> {
    items: Vec<Option<I>>,
    pos: usize,
    spec: Stream,
    paused: bool,
    pulled: Rc<Cell<usize>>,
    nest: Option<Box<dyn Fn()>>,
}

impl<I> Iterator for StreamIt<I> {
    type Item = I;
    fn next(&mut self) -> Option<I> {
        hook::hit(hook::STREAM);
        let at = (self.spec.at as usize).min(self.items.len());
        if self.pos == at && self.spec.end == 1 { hook::die(); }
        if self.pos == at && self.spec.end == 2 && !self.paused {
            self.paused = true;
            return None;
        }
        if self.pos >= self.items.len() { return None; }
        if let Some(f) = &self.nest { f(); }
        self.pos += 1;
        self.pulled.set(self.pos);
        self.items[self.pos - 1].take()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.items.len() - self.pos;
        match self.spec.hint {
            0 => (left, Some(left)),
            1 => (0, None),
            2 => (left + 700, Some(left + 700)),
            _ => (0, Some(left / 2)),
        }
    }
}

pub fn damage_bytes(b: &mut Vec<u8>, other: &[u8], k: u8, a: u16, c: u16) {
    let n = b.len();
    let at = |x: u16, n: usize| ((x as usize) * n) >> 16;
    match k {
        0 => b.truncate(at(a, n + 1)),
        1 => if n > 0 { let i = at(a, n); b[i] ^= 1 << (c % 8); },
        2 => if n > 0 { let i = at(a, n); let j = (i + 1 + at(c, 12)).min(n); b.drain(i..j); },
        3 => if n > 0 { let i = at(a, n); let j = (i + 1 + at(c, 30)).min(n); let s = b[i..j].to_vec(); b.splice(j..j, s); },
        4 => if n > 0 { let i = at(a, n); let j = (i + 1 + at(c, 6)).min(n); for x in &mut b[i..j] { *x = 0; } },
        5 => b.extend_from_slice(&other[..at(a, other.len() + 1)]),
        _ => { let i = at(a, n + 1); b.truncate(i); let j = at(c, other.len() + 1); b.extend_from_slice(&other[j..]); }
    }
}

/// `n`: how many values an end point may take; odd ones only if `odd`.
#[derive(Clone, Copy)]
struct Range { n: u64, odd: bool }
impl Range {
    fn at(self, x: u16) -> u64 {
        let v = u64::from(x) % self.n.max(1);
        if self.odd && x & 0x700 != 0 && v % 2 == 0 { (v + 1) % self.n } else { v }
    }
}

fn json_tine(a: u16, c: u16, n: Range) -> serde_json::Value {
    use serde_json::json;
    let kind = ["Lower", "Point", "Upper"][a as usize % 3];
    let x = n.at(c);
    match (a / 3) % 5 {
        0 => json!({ kind: "Infinite" }),
        1 | 2 => json!({ kind: { "Include": x } }),
        _ => json!({ kind: { "Exclude": x } }),
    }
}

fn damage_json(v: &mut serde_json::Value, k: u8, a: u16, c: u16, n: Range) {
    use serde_json::{json, Value};
    let at = |x: u16, n: usize| ((x as usize) * n) >> 16;
    if let Value::Array(ts) = v {
        let len = ts.len();
        if len == 0 || k == 14 {
            let i = at(a, len + 1);
            ts.insert(i, json_tine(a, c, n));
            return;
        }
        let i = at(a, len);
        match k {
            7 => { ts.remove(i); }
            8 => { let j = at(c, len); ts.swap(i, j); }
            9 => { let t = ts[i].clone(); let j = at(c, len + 1); ts.insert(j, t); }
            10 => {
                let kind = ["Lower", "Point", "Upper"][c as usize % 3];
                if let Some(b) = ts[i].as_object().and_then(|o| o.values().next()).cloned() { ts[i] = json!({ kind: b }); }
            }
            11 => if let Some(o) = ts[i].as_object_mut() {
                for b in o.values_mut() {
                    if let Some(x) = b.get("Include").cloned() { *b = json!({ "Exclude": x }); }
                    else if let Some(x) = b.get("Exclude").cloned() { *b = json!({ "Include": x }); }
                }
            },
            12 => if let Some(o) = ts[i].as_object_mut() { for b in o.values_mut() { *b = json!("Infinite"); } },
            13 => if let Some(o) = ts[i].as_object_mut() {
                for b in o.values_mut() {
                    if let Some(m) = b.as_object_mut() { for x in m.values_mut() { *x = json!(if c % 31 == 0 { n.n } else { n.at(c) }); } }
                }
            },
            15 => ts.reverse(),
            _ => { ts.truncate(i); }
        }
    } else {
        // A raw interval: rename the variant or move its values.
        let names2 = ["Open", "LeftOpen", "RightOpen", "Closed"];
        let names1 = ["Point", "UpTo", "UpFrom", "To", "From"];
        let (x, y) = (n.at(c), n.at(a));
        *v = match k % 4 {
            0 => json!({ names2[a as usize % 4]: [x, y] }),
            1 => json!({ names1[a as usize % 5]: x }),
            2 => json!({ names2[c as usize % 4]: [y, x] }),
            _ => json!(["Empty", "Full", "Open", "Point"][c as usize % 4]),
        };
    }
}

impl<'s, D: Dom> Machine<'s, D> {
    pub fn new(p: &MachinePlan, prop: &str, st: &'s mut Stats) -> Self {
        elem::set_size(D::elements(p.n as usize));
        elem::reset_live();
        let win: Vec<(u128, u32)> = p.win.iter().map(|w| (w.0.parse().unwrap_or(0), w.1)).collect();
        let u = if D::T::HOOKED && win.is_empty() { Univ::new(p.n as u128 - 1, &[(0, p.n)]) }
            else { Univ::new(D::T::max_ix(), &win) };
        let d = D::make(u);
        let n = d.cells();
        let empty = |_| Reg { v: Arc::new(D::new_value(0)), m: Bits::EMPTY, taint: 0 };
        let regs = (0..p.regs.max(1)).map(empty).collect();
        let ivs = (0..IREGS).map(|_| IvReg { v: d.iv(11, 0, 0), m: Bits::EMPTY, taint: 0 }).collect();
        Machine {
            d, n, mine: prop_bit(prop), regs, ivs,
            slots: (0..SLOTS).map(|_| None).collect(),
            disk: Disk::default(), docs: (0..DOCS).map(|_| None).collect(),
            step: 0, digest: 0x1234, st, owned_oracles: 0, faults_fired: 0,
            tight: prop == "C13",
        }
    }

    fn ow(&self, owners: u32) -> u32 {
        if D::TREE && owners & CONTENT != 0 { (owners & !CONTENT) | C14 } else { owners }
    }
    fn viol<T>(&self, owners: u32, class: &str, msg: String) -> R<T> {
        Err(Viol { owners: self.ow(owners), class: class.to_string(), msg, step: self.step })
    }
    /// Counts an oracle evaluation and fails if it did not hold.
    fn check(&mut self, owners: u32, ok: bool, class: &str, msg: impl FnOnce() -> String) -> R {
        self.st.oracle += 1;
        if self.ow(owners) & self.mine != 0 { self.owned_oracles += 1; }
        if ok { Ok(()) } else { self.viol(owners, class, msg()) }
    }
    /// As `check`, but a failure that is not this property's is noted and the run goes on.
    fn soft(&mut self, owners: u32, ok: bool, class: &str, msg: impl FnOnce() -> String) -> R<bool> {
        match self.check(owners, ok, class, msg) {
            Ok(()) => Ok(true),
            Err(v) if v.owners & self.mine != 0 => Err(v),
            Err(_) => { self.st.hit("foreign mismatch adopted"); Ok(false) }
        }
    }
    fn mixd(&mut self, x: u64) { self.digest = mix(self.digest ^ x); }
    fn mixb(&mut self, b: &Bits) { for w in b.0 { self.mixd(w); } }

    fn limit(&self, k: usize) -> u64 {
        if self.tight { budget(k) } else { budget(k).saturating_mul(1000) }
    }

    /// An operation of the library with an optional element fault. `None`: it unwound as injected.
    fn call<T>(&mut self, owners: u32, name: &str, k: usize, arm: Arm, f: impl FnOnce() -> T) -> R<Option<T>> {
        let lim = self.limit(k);
        crate::trace(self.ow(owners), name);
        let (o, rep) = hook::call(lim, arm, f);
        self.st.calls += 1;
        self.st.elem_ops += rep.count;
        self.st.peak = self.st.peak.max(rep.count * 100 / budget(k));
        self.mixd(o.code());
        self.mixd(rep.count);
        if self.mine & C13 != 0 { self.owned_oracles += 1; }
        if rep.fired != 0 {
            self.faults_fired += 1;
            let what = match arm.mode { Mode::Panic => "element unwinds", Mode::Nest => "element re-enters library", _ => "element reports error" };
            self.st.hit(&format!("fault: {what}"));
        }
        if let Some(m) = NEST_FAIL.with(|n| n.borrow_mut().take()) {
            return self.viol(owners | C01, &format!("nested/{name}"), m);
        }
        match o {
            Out::Ok(x) => Ok(Some(x)),
            Out::Injected => Ok(None),
            Out::Budget => {
                let own = if self.tight { C13 } else { owners };
                self.viol(own, &format!("budget/{name}"), format!("{name} on {k} intervals exceeded {lim} element operations"))
            }
            Out::Panic(m) => self.viol(owners, &format!("panic/{name}"), format!("{name} panicked: {m}")),
        }
    }
    fn call0<T>(&mut self, owners: u32, name: &str, k: usize, f: impl FnOnce() -> T) -> R<T> {
        match self.call(owners, name, k, NO_ARM, f)? {
            Some(x) => Ok(x),
            None => self.viol(owners, &format!("swallow/{name}"), format!("{name} unwound without a fault")),
        }
    }
    /// Chooses the instant of an element fault from a dry run of the operation.
    fn arm(&mut self, f: &Fault, k: usize, dry: impl FnOnce()) -> Arm {
        if f.kind == 0 { return NO_ARM; }
        // Now and then blindly, so that the fault is the first thing that
        // happens to such an operation.
        if f.kind == 1 && f.at % 8 == 0 { return Arm { mode: Mode::Panic, mask: f.mask, trip: 1 + u64::from(f.at >> 3) % (4 * k as u64 + 8) }; }
        let (o, rep) = hook::call(self.limit(k), Arm { mode: Mode::None, mask: f.mask, trip: 0 }, dry);
        if !matches!(o, Out::Ok(())) || rep.masked == 0 { return NO_ARM; }
        let trip = 1 + ((u64::from(f.at) * rep.masked) >> 16);
        if f.kind == 2 {
            let d = D::make(Univ { cells: self.univ_cells() });
            hook::set_nest(Some(Box::new(move || {
                if let Err(e) = nested(&d) { NEST_FAIL.with(|n| *n.borrow_mut() = Some(e)); }
            })));
            Arm { mode: Mode::Nest, mask: f.mask, trip }
        } else {
            Arm { mode: Mode::Panic, mask: f.mask, trip }
        }
    }
    fn univ_cells(&self) -> Vec<(u128, u128)> {
        if D::TREE { (0..self.d.args() as u128).map(|i| (i, i)).collect() }
        else {
            let mut v: Vec<(u128, u128)> = vec![(0, 0); self.d.cells()];
            for (ix, c) in self.d.probes() { if v[c] == (0, 0) { v[c] = (ix, ix); } v[c].0 = v[c].0.min(ix); v[c].1 = v[c].1.max(ix); }
            v
        }
    }

    fn arg(&self, a: u16) -> usize { a as usize % self.d.args() }
    fn reg(&self, r: u8) -> usize { r as usize % self.regs.len() }
    fn runs(&self, r: usize) -> usize { self.regs[r].m.runs().len() }

    fn iv_model(&self, iv: &Iv) -> Bits {
        if iv.st == IV_REG { self.ivs[iv.a as usize % IREGS].m }
        else { self.d.iv_model(iv.st % INTERVAL_STYLES, self.arg(iv.a), self.arg(iv.b)) }
    }
    /// Makes the interval a step names, by the constructor it names.
    fn iv(&mut self, owners: u32, iv: &Iv) -> R<D::Iv> {
        if iv.st == IV_REG { return Ok(self.ivs[iv.a as usize % IREGS].v.clone()); }
        let (a, b) = (self.arg(iv.a), self.arg(iv.b));
        let s = iv.st % INTERVAL_STYLES;
        crate::trace(self.ow(owners), "interval constructor");
        let (o, _) = { let d = &self.d; hook::call(1_000_000, NO_ARM, || d.iv(s, a, b)) };
        match o {
            Out::Ok(x) => Ok(x),
            Out::Panic(m) => self.viol(owners, "panic/constructor", format!("interval constructor {s} panicked: {m}")),
            _ => self.viol(owners | C13, "budget/constructor", "interval constructor did not finish".into()),
        }
    }
    fn build(&self, m: &Bits) -> D::V {
        let mut it = self.d.expect_runs(m).into_iter().map(|r| self.d.reference(r));
        D::collect_iv(&mut it, 0)
    }
    /// The points of a value as listed, if it lists whole cells.
    fn listed(&self, l: &[D::Iv]) -> (Vec<Repr>, Option<Bits>) {
        let rs: Vec<Repr> = l.iter().map(|i| self.d.decode(i)).collect();
        let mut m = Bits::EMPTY;
        let mut ok = true;
        for r in &rs {
            match self.d.cells_of(*r) { Some(b) => m = m.or(b), None => ok = false }
        }
        (rs, if ok { Some(m) } else { None })
    }

    fn sample_probes(&self, m: &Bits, all: bool) -> Vec<(u128, usize)> {
        let ps = self.d.probes();
        if all || ps.len() <= 26 { return ps; }
        let mut r = Rng::new(self.digest ^ self.step as u64);
        let runs = m.runs();
        let mut want: HashSet<usize> = HashSet::new();
        for _ in 0..6 {
            if !runs.is_empty() {
                let (a, b) = runs[r.below(runs.len())];
                for c in [a.wrapping_sub(1), a, b, b + 1] { want.insert(c); }
            }
            want.insert(r.below(self.n));
        }
        want.insert(0);
        want.insert(self.n - 1);
        ps.into_iter().filter(|p| want.contains(&p.1)).collect()
    }

    /// Checks every observation of a value against the model. Returns the
    /// model to go on with (the observed one after a mismatch that belongs to
    /// another property).
    fn audit(&mut self, v: &D::V, m: Bits, owners: u32, canon: u32, all: bool, ctx: &str) -> R<Bits> {
        let k = m.runs().len() * 2 + 2;
        let l = self.call0(owners, "interval_iter", k, || D::list(v))?;
        let (rs, pts) = self.listed(&l);
        let mut m = m;
        if pts != Some(m) {
            let ok = self.soft(owners, false, &format!("content/{ctx}"), || {
                format!("after {ctx} the intervals are {rs:?}; expected the cells {}", m.show())
            })?;
            if !ok {
                match pts { Some(p) => m = p, None => return self.viol(0, "foreign", "unreadable content".into()) }
            }
        } else { self.check(owners, true, "", String::new)?; }
        let want = self.d.expect_runs(&m);
        self.soft(canon, rs == want, &format!("canonical/{ctx}"), || format!("after {ctx} the intervals are {rs:?}; the canonical list is {want:?}"))?;
        for (i, r) in l.iter().zip(&rs) {
            let refi = self.d.reference(*r);
            self.soft(canon, *i == refi, &format!("normal-form/{ctx}"), || format!("after {ctx} the interval {i:?} is not the normal form {refi:?}"))?;
            if let Some(s) = self.d.is_single(i) {
                let one = matches!(r, Repr::R(a, b) if a == b);
                self.soft(canon, s == one, &format!("normal-form/{ctx}"), || format!("after {ctx} is_degenerate of {i:?} is {s}"))?;
            }
        }
        let e = self.call0(owners, "is_empty", k, || D::is_empty(v))?;
        self.soft(owners, e == m.is_empty(), &format!("is_empty/{ctx}"), || format!("after {ctx} is_empty() is {e} for {}", m.show()))?;
        let e = self.call0(owners, "is_full", k, || D::is_full(v))?;
        self.soft(owners, e == (m == Bits::full(self.n)), &format!("is_full/{ctx}"), || format!("after {ctx} is_full() is {e} for {}", m.show()))?;
        let bs = self.call0(canon, "bounds", k, || D::bounds(v))?;
        let got = {
            let conv = |b: &Option<normalize_interval::bound::Bound<D::T>>| match b {
                None => None,
                Some(normalize_interval::bound::Bound::Infinite) => Some(B::Inf),
                Some(normalize_interval::bound::Bound::Include(x)) => Some(B::Inc(x.ix())),
                Some(normalize_interval::bound::Bound::Exclude(x)) => Some(B::Exc(x.ix())),
            };
            (conv(&bs.0), conv(&bs.1))
        };
        let want = match self.d.expect_hull(&m) { Repr::Empty => (None, None), Repr::R(a, b) => (Some(a), Some(b)) };
        self.soft(canon, got == want, &format!("bounds/{ctx}"), || format!("after {ctx} the bounds are {got:?}, not {want:?}"))?;
        for (ix, c) in self.sample_probes(&m, all) {
            let p = D::T::mk(ix);
            let got = self.call0(owners, "contains", k, || D::contains(v, &p))?;
            self.soft(owners, got == m.has(c), &format!("contains/{ctx}"), || format!("after {ctx} contains({p:?}) is {got} for {}", m.show()))?;
        }
        Ok(m)
    }

    fn audit_reg(&mut self, r: usize, owners: u32, all: bool, ctx: &str) -> R {
        let v = self.regs[r].v.clone();
        let canon = C03 | (owners & (C05 | C08 | C09)) | self.regs[r].taint;
        let m = self.audit(&v, self.regs[r].m, owners, canon, all, ctx)?;
        self.regs[r].m = m;
        self.mixb(&m);
        // Equality and hashing among the registers.
        for j in 0..self.regs.len() {
            if j == r { continue; }
            let (w, same) = (self.regs[j].v.clone(), self.regs[j].m == m);
            self.pair(&v, &w, same, C03 | (owners & (C05 | C08 | C09)), ctx)?;
        }
        self.state();
        Ok(())
    }
    fn pair(&mut self, v: &D::V, w: &D::V, same: bool, owners: u32, ctx: &str) -> R {
        let eq = self.call0(owners, "eq", 64, || v == w)?;
        self.soft(owners, eq == same, &format!("equality/{ctx}"), || format!("after {ctx} {v:?} == {w:?} is {eq}"))?;
        let (ne, sym) = self.call0(owners, "eq", 64, || (v != w, w == v))?;
        self.soft(owners, ne != eq && sym == eq, &format!("inequality/{ctx}"), || format!("after {ctx} {v:?} == {w:?} is {eq}, the other way {sym}, and != is {ne}"))?;
        if same {
            let (a, b) = self.call0(owners, "hash", 64, || (hash_of(v), hash_of(w)))?;
            self.soft(owners, a == b, &format!("hash/{ctx}"), || format!("after {ctx} the hashes of {v:?} and {w:?} differ"))?;
            let (a, b) = self.call0(owners, "extremes", 64, || (D::extremes(v), D::extremes(w)))?;
            self.soft(owners, a == b, &format!("extremes/{ctx}"), || format!("after {ctx} infimum/supremum of {v:?} and {w:?} differ"))?;
        }
        Ok(())
    }
    fn state(&mut self) {
        let mut h = mix(self.n as u64 ^ if D::TREE { 7 } else { 0 });
        for r in &self.regs { for w in r.m.0 { h = mix(h ^ w); } }
        for s in self.slots.iter().flatten() { h = mix(h ^ s.exp.len() as u64); }
        self.st.states.insert(h);
    }

    /// One in-place operation on a register, with its fault.
    fn in_place(&mut self, r: usize, k: u8, ivs: &Iv, f: &Fault) -> R {
        let name = ["union_in_place", "intersect_in_place", "minus_in_place"][k as usize % 3];
        let taint = self.regs[r].taint;
        let own = C01 | taint;
        let iv = self.iv(own, ivs)?;
        let (pre, im) = (self.regs[r].m, self.iv_model(ivs));
        let post = match k { 0 => pre.or(im), 1 => pre.and(im), _ => pre.sub(im) };
        let kk = pre.runs().len() + 1;
        if ivs.st == IV_REG { self.st.hit("probe: interval register used as argument"); }
        if Arc::strong_count(&self.regs[r].v) > 1 { self.st.hit("probe: write while a snapshot is open"); }
        let arm = { let v = (*self.regs[r].v).clone(); let iv = iv.clone(); self.arm(f, kk, move || { let mut v = v; D::in_place(&mut v, k, iv) }) };
        let mut v = std::mem::replace(&mut self.regs[r].v, Arc::new(D::new_value(0)));
        let out = { let vm = Arc::make_mut(&mut v); let iv = iv.clone(); self.call(own | if arm.mode == Mode::Nest { C05 } else { 0 }, name, kk, arm, || D::in_place(vm, k, iv)) };
        self.regs[r].v = v;
        let again = |_: &Self, t: &mut D::V| { let iv = iv.clone(); D::in_place(t, k, iv) };
        let out = match out { Ok(o) => o, Err(v) => return self.attribute(v, taint, pre, post, again) };
        match out {
            Some(()) => {
                self.regs[r].m = post;
                if let Err(v) = self.audit_reg(r, own, false, name) { return self.attribute(v, taint, pre, post, again); }
                Ok(())
            }
            None => {
                self.st.hit("probe: in-place operation interrupted");
                // Entirely or not at all.
                let own = C05 | C01;
                let mut tries = if f.retry && f.at >> 5 & 3 == 1 { 1 + (f.at >> 7) % 4 } else { 0 };
                loop {
                    let v = self.regs[r].v.clone();
                    let l = self.call0(own, "interval_iter", kk + 4, || D::list(&v))?;
                    let (rs, pts) = self.listed(&l);
                    self.check(own, pts == Some(pre) || pts == Some(post), &format!("atomicity/{name}"), || {
                        format!("{name} interrupted on {} left {rs:?}: neither the old {} nor the new {}", pre.show(), pre.show(), post.show())
                    })?;
                    if pre != post { self.st.hit(if pts == Some(pre) { "probe: interrupted, old value kept" } else { "probe: interrupted, new value kept" }); }
                    self.regs[r].m = pts.unwrap();
                    self.regs[r].taint |= C05;
                    self.audit_reg(r, C05 | C01, false, &format!("interrupted {name}"))?;
                    if tries == 0 { break; }
                    // Interrupted again and again.
                    tries -= 1;
                    let arm = Arm { mode: Mode::Panic, mask: f.mask, trip: 1 + mix(u64::from(f.at) + u64::from(tries)) % (2 * kk as u64 + 4) };
                    let now = self.regs[r].m;
                    let mut v = std::mem::replace(&mut self.regs[r].v, Arc::new(D::new_value(0)));
                    let out = { let vm = Arc::make_mut(&mut v); let iv = iv.clone(); self.call(C05 | C01, name, kk, arm, || D::in_place(vm, k, iv)) };
                    self.regs[r].v = v;
                    match out {
                        Ok(None) => self.st.hit("probe: retry interrupted, too"),
                        out => {
                            self.regs[r].m = post;
                            let res = out.and_then(|_| self.audit_reg(r, C05 | C01, false, &format!("retried {name}")));
                            return match res { Err(v) => self.attribute(v, C05, now, post, again), ok => ok };
                        }
                    }
                }
                if f.retry {
                    let mut v = std::mem::replace(&mut self.regs[r].v, Arc::new(D::new_value(0)));
                    let out = { let vm = Arc::make_mut(&mut v); let iv = iv.clone(); self.call(C05 | C01 | C13, name, kk, NO_ARM, || D::in_place(vm, k, iv)) };
                    self.regs[r].v = v;
                    let now = self.regs[r].m;
                    self.regs[r].m = post;
                    self.st.hit("probe: interrupted operation retried");
                    let res = out.and_then(|_| self.audit_reg(r, C05 | C01 | C13, false, &format!("retried {name}")));
                    if let Err(v) = res { return self.attribute(v, C05 | C13, now, post, again); }
                }
                Ok(())
            }
        }
    }
    /// Whether a mismatch after an operation on a value with a history (a
    /// fault, a restart) also shows on a freshly built equal value: then the
    /// history is not to blame.
    fn attribute(&mut self, mut v: Viol, taint: u32, pre: Bits, post: Bits, f: impl FnOnce(&Self, &mut D::V)) -> R {
        if taint == 0 { return Err(v); }
        let mut t = self.build(&pre);
        let (o, _) = { let s = &*self; hook::call(10_000_000, NO_ARM, || f(s, &mut t)) };
        let fresh_bad = match o {
            Out::Ok(()) => {
                let l = hook::call(10_000_000, NO_ARM, || D::list(&t)).0;
                match l { Out::Ok(l) => { let (rs, p) = self.listed(&l); p != Some(post) || rs != self.d.expect_runs(&post) } _ => true }
            }
            _ => true,
        };
        if fresh_bad { v.owners &= !(C05 | C08 | C09 | C13); }
        if v.owners & self.mine != 0 { Err(v) } else { v.owners = 0; Err(v) }
    }

    fn put(&mut self, r: usize, v: D::V, m: Bits, taint: u32) {
        self.regs[r].v = Arc::new(v);
        self.regs[r].m = m;
        self.regs[r].taint = taint;
    }

    fn derive(&mut self, d: usize, k: u8, x: usize, y: usize, f: &Fault) -> R {
        let names = ["complement", "intersect", "union", "minus", "clone", "clone_from"];
        let k = k % 6;
        let name = names[k as usize];
        let (vx, vy) = (self.regs[x].v.clone(), self.regs[y].v.clone());
        let (mx, my) = (self.regs[x].m, self.regs[y].m);
        let taint = self.regs[x].taint | if matches!(k, 0 | 4 | 5) { 0 } else { self.regs[y].taint };
        let own = C02 | taint;
        let m = match k { 0 => mx.not(self.n), 1 => mx.and(my), 2 => mx.or(my), 3 => mx.sub(my), _ => mx };
        let kk = self.runs(x) + self.runs(y) + 1;
        let old = self.regs[d].v.clone();
        let go = |vx: &D::V, vy: &D::V| match k {
            0 => D::complement(vx),
            1 => D::intersect(vx, vy),
            2 => D::union(vx, vy),
            3 => D::minus(vx, vy),
            4 => vx.clone(),
            // Over what the destination held.
            _ => { let mut v = (*old).clone(); v.clone_from(vx); v }
        };
        let arm = { let (a, b) = (vx.clone(), vy.clone()); self.arm(f, kk, move || { go(&a, &b); }) };
        let mut out = self.call(own, name, kk, arm, || go(&vx, &vy))?;
        if out.is_none() {
            self.st.hit("probe: derived operation interrupted");
            // Operands untouched, the destination keeps its value.
            self.audit_reg(x, C05 | C02, false, &format!("interrupted {name}"))?;
            self.audit_reg(y, C05 | C02, false, &format!("interrupted {name}"))?;
            if f.retry { out = self.call(C05 | C02 | C13, name, kk, NO_ARM, || go(&vx, &vy))?; }
        }
        if let Some(v) = out {
            let taint = taint | if arm.mode == Mode::Panic { C05 } else { 0 };
            let was = self.regs[x].taint;
            self.put(d, v, m, 0);
            self.regs[d].taint = taint;
            if let Err(v) = self.audit_reg(d, own, false, name) {
                let ty = self.build(&my);
                self.regs[d].taint |= was;
                return self.attribute(v, taint, mx, m, |_, t| { let r = go(t, &ty); *t = r; });
            }
        }
        // The operands are left unchanged (they may be the destination).
        for (z, vz, mz) in [(x, vx, mx), (y, vy, my)] {
            let m = self.audit(&vz, mz, C02 | self.regs[z].taint, C02, false, &format!("operand of {name}"))?;
            if z != d { self.regs[z].m = m; }
        }
        Ok(())
    }

    fn stream(&mut self, s: &Stream, tree_raw: bool) -> (Vec<Bits>, usize) {
        // Models of the items, and how many the stream delivers.
        let ms: Vec<Bits> = s.items.iter().map(|i| {
            if tree_raw { Bits::EMPTY }
            else if s.pts { self.point_model(i) } else { self.iv_model(i) }
        }).collect();
        let n = if s.end == 0 { ms.len() } else { (s.at as usize).min(ms.len()) };
        (ms, n)
    }
    fn point_cell(&self, i: &Iv) -> Option<usize> {
        let a = if i.st == IV_REG { i.b as usize } else { i.a as usize } % self.n;
        let a = if D::TREE { a | 1 } else { a };
        let a = if a >= self.n { a - 2 } else { a };
        if self.d.is_point(a) { Some(a) } else { (0..self.n).find(|&c| self.d.is_point(c)) }
    }
    fn point_model(&self, i: &Iv) -> Bits {
        self.point_cell(i).map_or(Bits::EMPTY, |a| Bits::run(a, a + 1))
    }
    fn nester(&self) -> Box<dyn Fn()> {
        let d = D::make(Univ { cells: self.univ_cells() });
        Box::new(move || if let Err(e) = nested(&d) { NEST_FAIL.with(|n| *n.borrow_mut() = Some(e)); })
    }
    fn iv_stream(&mut self, own: u32, s: &Stream, pulled: &Rc<Cell<usize>>) -> R<StreamIt<D::Iv>> {
        let mut items = Vec::new();
        for i in &s.items { items.push(Some(self.iv(own, i)?)); }
        let nest = if s.nest { Some(self.nester()) } else { None };
        Ok(StreamIt { items, pos: 0, spec: s.clone(), paused: false, pulled: pulled.clone(), nest })
    }
    fn pt_stream(&mut self, s: &Stream, pulled: &Rc<Cell<usize>>) -> StreamIt<D::T> {
        let items = s.items.iter().filter_map(|i| self.point_cell(i)).map(|c| Some(D::T::mk(self.d.point_ix(c)))).collect();
        let nest = if s.nest { Some(self.nester()) } else { None };
        StreamIt { items, pos: 0, spec: s.clone(), paused: false, pulled: pulled.clone(), nest }
    }
    fn note_stream(&mut self, s: &Stream) {
        match s.end { 1 => { self.faults_fired += 1; self.st.hit("fault: stream dies") } 2 => { self.faults_fired += 1; self.st.hit("fault: stream resumes after its end") } _ => {} }
        if s.hint != 0 { self.faults_fired += 1; self.st.hit("fault: stream misreports its length"); }
        if s.nest { self.faults_fired += 1; self.st.hit("fault: stream re-enters library"); }
    }

    fn extend(&mut self, r: usize, s: &Stream, f: &Fault) -> R {
        let s = &Stream { pts: false, ..s.clone() };
        let own = C06 | C01 | self.regs[r].taint;
        let (ms, n) = self.stream(s, false);
        let pre = self.regs[r].m;
        let all = ms[..n].iter().fold(pre, |a, b| a.or(*b));
        let kk = pre.runs().len() + ms.len() + 1;
        let pulled = Rc::new(Cell::new(0));
        let arm = if f.kind == 0 { NO_ARM } else {
            let mut it = self.iv_stream(own, &Stream { end: 0, nest: false, ..s.clone() }, &Rc::new(Cell::new(0)))?;
            let mut v = (*self.regs[r].v).clone();
            self.arm(f, kk, move || D::extend_iv(&mut v, &mut it))
        };
        let mut it = self.iv_stream(own, s, &pulled)?;
        self.note_stream(s);
        let mut v = std::mem::replace(&mut self.regs[r].v, Arc::new(D::new_value(0)));
        let out = { let vm = Arc::make_mut(&mut v); self.call(own, "extend", kk, arm, || D::extend_iv(vm, &mut it)) };
        drop(it);
        self.regs[r].v = v;
        match out? {
            Some(()) => {
                self.check(C06, s.end != 1, "swallow/extend", || "extend hid the death of its stream".into())?;
                self.regs[r].m = all;
                self.audit_reg(r, own, false, "extend")
            }
            None => {
                let own = C06 | C05 | C01;
                let v = self.regs[r].v.clone();
                let l = self.call0(own, "interval_iter", kk + 4, || D::list(&v))?;
                let (rs, pts) = self.listed(&l);
                let got = pulled.get();
                let upto = ms[..got.min(ms.len())].iter().fold(pre, |a, b| a.or(*b));
                // A dead stream: everything it delivered. An element that
                // unwound: at least the old points and nothing not delivered.
                let dead = s.end == 1 && got == (s.at as usize).min(ms.len());
                let ok = match pts {
                    Some(p) => if dead && arm.mode != Mode::Panic { p == upto } else { pre.sub(p).is_empty() && p.sub(upto).is_empty() },
                    None => false,
                };
                self.check(if dead { C06 | C01 } else { own }, ok, "interrupted/extend", || {
                    format!("extend interrupted after {got} items left {rs:?}; old {} delivered up to {}", pre.show(), upto.show())
                })?;
                self.regs[r].m = pts.unwrap_or(pre);
                self.regs[r].taint |= C05;
                self.st.hit("probe: extend interrupted");
                self.audit_reg(r, own, false, "interrupted extend")?;
                if f.retry {
                    let mut it = self.iv_stream(own, &Stream { end: 0, ..s.clone() }, &Rc::new(Cell::new(0)))?;
                    let mut v = std::mem::replace(&mut self.regs[r].v, Arc::new(D::new_value(0)));
                    let out = { let vm = Arc::make_mut(&mut v); self.call(own | C13, "extend", kk, NO_ARM, || D::extend_iv(vm, &mut it)) };
                    drop(it);
                    self.regs[r].v = v;
                    out?;
                    self.regs[r].m = ms.iter().fold(pre, |a, b| a.or(*b));
                    self.audit_reg(r, own | C13, false, "retried extend")?;
                }
                Ok(())
            }
        }
    }

    fn collect(&mut self, d: usize, s: &Stream, how: u8, f: &Fault) -> R {
        let own = C06 | C01;
        let (ms, n) = self.stream(s, false);
        let ms: Vec<Bits> = if s.pts && self.point_cell(&Iv { st: 0, a: 0, b: 0 }).is_none() { return Ok(()) } else { ms };
        let all = ms[..n].iter().fold(Bits::EMPTY, |a, b| a.or(*b));
        let kk = ms.len() + 1;
        let pulled = Rc::new(Cell::new(0));
        let clean = Stream { end: 0, nest: false, ..s.clone() };
        let (name, out, arm);
        if s.pts {
            name = "collect points";
            arm = if f.kind == 0 { NO_ARM } else { let mut it = self.pt_stream(&clean, &Rc::new(Cell::new(0))); self.arm(f, kk, move || { D::collect_pt(&mut it); }) };
            let mut it = self.pt_stream(s, &pulled);
            self.note_stream(s);
            out = self.call(own, name, kk, arm, move || D::collect_pt(&mut it))?;
        } else {
            name = "collect intervals";
            arm = if f.kind == 0 { NO_ARM } else { let mut it = self.iv_stream(own, &clean, &Rc::new(Cell::new(0)))?; self.arm(f, kk, move || { D::collect_iv(&mut it, how); }) };
            let mut it = self.iv_stream(own, s, &pulled)?;
            self.note_stream(s);
            out = self.call(own, name, kk, arm, move || D::collect_iv(&mut it, how))?;
        }
        match out {
            Some(v) => {
                self.check(C06, s.end != 1, "swallow/collect", || "collect hid the death of its stream".into())?;
                self.put(d, v, all, 0);
                self.audit_reg(d, own, false, name)
            }
            None => { self.st.hit("probe: collect interrupted"); Ok(()) }
        }
    }

    fn ints(&mut self, t: u8, ops: &[(u8, u16, u16)]) -> R {
        let dense = (12..=crate::ints::KINDS).contains(&t);
        let damage = self.mine & C09 != 0;
        let all = if dense { C14 | C04 | C06 | C08 } else { CONTENT | C04 | C06 | C08 } | if damage { C09 } else { 0 };
        crate::trace(all | C13, "a history over an ordinary type");
        let (o, _) = hook::call(u64::MAX, NO_ARM, || crate::ints::history(t, ops, damage));
        self.st.calls += ops.len() as u64;
        self.st.hit(if dense { "probe: history of a tree over an ordinary type" } else { "probe: history over an integer type" });
        if damage { self.st.hit("probe: damaged documents within such a history"); self.faults_fired += 1; }
        if t >= crate::ints::KINDS { self.st.hit("probe: value of many thousands of intervals"); }
        if ops.iter().any(|o| o.0 >= crate::ints::BULK) { self.st.hit("probe: history of hundreds of intervals"); }
        if self.mine & all != 0 { self.owned_oracles += 1; }
        match o {
            Out::Ok(Ok(d)) => { self.mixd(d); Ok(()) }
            Out::Ok(Err((own, class, msg))) => Err(Viol { owners: own, class: format!("{}/{class}", crate::ints::name(t)), msg, step: self.step }),
            Out::Panic(m) => Err(Viol { owners: all, class: format!("{}/panic", crate::ints::name(t)), msg: format!("panicked: {m}"), step: self.step }),
            _ => Err(Viol { owners: all, class: "history/unwound".into(), msg: "unwound without a fault".into(), step: self.step }),
        }
    }

    /// Folds over a stream of raw intervals, taken as dense.
    fn bulk(&mut self, k: u8, s: &Stream) -> R {
        use normalize_interval::raw_interval::RawInterval;
        let n = self.d.args().min(60);
        let td: Tree<D::T> = Tree::make(Univ { cells: (0..n as u128).map(|i| (i, i)).collect() });
        let sty = |i: &Iv| (i.st % INTERVAL_STYLES, i.a as usize % n, i.b as usize % n);
        let ms: Vec<Bits> = s.items.iter().map(|i| { let (s, a, b) = sty(i); td.iv_model(s, a, b) }).collect();
        let cnt = if s.end == 0 { ms.len() } else { (s.at as usize).min(ms.len()) };
        let items = s.items.iter().map(|i| { let (s, a, b) = sty(i); Some(td.iv(s, a, b)) }).collect();
        let nest = if s.nest { Some(self.nester()) } else { None };
        let it = StreamIt { items, pos: 0, spec: s.clone(), paused: false, pulled: Rc::new(Cell::new(0)), nest };
        self.note_stream(s);
        let name = ["union_all", "intersect_all", "enclose_all"][k as usize % 3];
        let out = self.call(C06, name, ms.len() + 1, NO_ARM, move || match k % 3 {
            0 => RawInterval::union_all(it).collect::<Vec<_>>(),
            1 => vec![RawInterval::intersect_all(it)],
            _ => vec![RawInterval::enclose_all(it)],
        })?;
        let Some(l) = out else { return self.check(C06, s.end == 1, "swallow/bulk", || "unwound without a fault".into()) };
        self.check(C06, s.end != 1, &format!("swallow/{name}"), || format!("{name} hid the death of its stream"))?;
        let want = match k % 3 {
            0 => ms[..cnt].iter().fold(Bits::EMPTY, |a, b| a.or(*b)),
            1 => ms[..cnt].iter().fold(Bits::full(td.cells()), |a, b| a.and(*b)),
            _ => ms[..cnt].iter().fold(Bits::EMPTY, |a, b| a.or(*b)).hull(),
        };
        let mut got = Some(Bits::EMPTY);
        for i in &l { got = match (got, td.cells_of(td.decode(i))) { (Some(g), Some(b)) => Some(g.or(b)), _ => None }; }
        self.mixb(&want);
        self.check(C06, got == Some(want), &format!("content/{name}"), || format!("{name} gave {l:?}; expected the cells {}", want.show()))?;
        // A union consists of separate intervals.
        self.check(C06, k % 3 != 0 || l.len() == want.runs().len(), &format!("pieces/{name}"), || format!("{name} gave {l:?}; expected {} intervals", want.runs().len()))
    }

    fn query(&mut self, x: usize, y: usize) -> R {
        let (vx, vy) = (self.regs[x].v.clone(), self.regs[y].v.clone());
        let (mx, my) = (self.regs[x].m, self.regs[y].m);
        let t = self.regs[x].taint;
        let own = C02 | t;
        let kk = self.runs(x) + self.runs(y) + 1;
        let got = self.call0(own | self.regs[y].taint, "intersects", kk, || D::intersects(&vx, &vy))?;
        self.soft(own, got == !mx.and(my).is_empty(), "intersects", || format!("intersects is {got} for {} and {}", mx.show(), my.show()))?;
        let e = self.call0(own, "enclose", kk, || D::enclose(&vx))?;
        let (r, w) = (self.d.decode(&e), self.d.expect_hull(&mx));
        self.soft(own, r == w, "enclose", || format!("enclose of {} is {r:?}, not {w:?}", mx.show()))?;
        let refi = self.d.reference(r);
        self.soft(C03, e == refi, "normal-form/enclose", || format!("enclose gave {e:?}, not in normal form"))?;
        let e = self.call0(own, "closure", kk, || D::closure(&vx))?;
        let (r, w) = (self.d.decode(&e), self.d.expect_closure(&mx));
        self.soft(own, r == w, "closure", || format!("closure of {} is {r:?}, not {w:?}", mx.show()))?;
        let refi = self.d.reference(r);
        self.soft(C03, e == refi, "normal-form/closure", || format!("closure gave {e:?}, not in normal form"))?;
        // The same intervals, whichever way they are listed.
        let c = (*vx).clone();
        let l = self.call0(C03 | t, "into_interval_iter", kk, move || D::into_list(c))?;
        let (rs, _) = self.listed(&l);
        let w = self.d.expect_runs(&mx);
        self.soft(C03 | C04, rs == w, "list/into", || format!("into_interval_iter gave {rs:?}, not {w:?}"))?;
        // The sequence of points.
        if !D::TREE {
            let e = self.d.open_expect(0, &mx, &Bits::EMPTY);
            if e.len() <= 300 {
                let iv = self.ivs[0].v.clone();
                if let Some(it) = self.d.open(5, &vx, &iv) {
                    let lim = self.limit(kk) * (e.len() as u64 + 2);
                    crate::trace(self.ow(C01 | C04) | C13, "iterating points");
                    let (o, _) = it.drain(11, usize::MAX, lim);
                    let w = expect_drain(e, 11, usize::MAX);
                    match o {
                        Out::Ok(g) => { self.soft(C01 | C04 | t, g == w, "points", || format!("iterating {} gave {g:?}", mx.show()))?; }
                        Out::Panic(m) => return self.viol(C01 | C04 | t, "panic/points", format!("iterating panicked: {m}")),
                        _ => return self.viol(C13 | C01, "budget/points", "iterating did not finish".into()),
                    }
                }
            }
        }
        self.audit_reg(x, C02 | C01 | t, true, "queries")?;
        self.audit_reg(y, C02 | C01 | self.regs[y].taint, false, "queries")
    }

    /// Builds the same point set by another route and compares.
    fn twin(&mut self, x: usize, how: u8) -> R {
        let m = self.regs[x].m;
        let v = self.regs[x].v.clone();
        let rs = self.d.expect_runs(&m);
        let own = C03;
        let d = &self.d;
        let full = Bits::full(self.n);
        let lists = |m: &Bits| -> Vec<D::Iv> { d.expect_runs(m).into_iter().map(|r| d.reference(r)).collect() };
        let many = m.count() <= 40 && (0..self.n).all(|c| !m.has(c) || d.is_point(c));
        crate::trace(self.ow(C01 | C02) | C13, "building by another route");
        let made = hook::call(50_000_000, NO_ARM, || -> D::V {
            match how % 8 {
                0 => D::collect_iv(&mut lists(&m).into_iter().rev(), 0),
                1 if many => D::collect_pt(&mut (0..self.n).rev().filter(|&c| m.has(c)).map(|c| D::T::mk(d.point_ix(c)))),
                2 => {
                    let mut t = D::full_value(0);
                    for i in lists(&full.sub(m)) { D::in_place(&mut t, 2, i); }
                    t
                }
                3 => D::complement(&D::collect_iv(&mut lists(&full.sub(m)).into_iter(), 1)),
                4 => {
                    let l = lists(&m);
                    let (a, b): (Vec<_>, Vec<_>) = l.into_iter().enumerate().partition(|(i, _)| i % 2 == 0);
                    let a = D::collect_iv(&mut a.into_iter().map(|x| x.1), 0);
                    let b = D::collect_iv(&mut b.into_iter().map(|x| x.1), 0);
                    D::union(&b, &a)
                }
                5 => D::minus(&D::full_value(1), &D::collect_iv(&mut lists(&full.sub(m)).into_iter(), 0)),
                6 => {
                    let mut t = D::new_value(2);
                    D::extend_iv(&mut t, &mut lists(&m).into_iter().chain(lists(&m)));
                    D::intersect(&D::full_value(0), &t)
                }
                _ => {
                    // Cell by cell.
                    let mut t = D::new_value(0);
                    let mut c = self.n;
                    while c > 0 {
                        c -= 1;
                        if m.has(c) { for i in lists(&Bits::run(c, c + 1)) { D::in_place(&mut t, 0, i); } }
                    }
                    t
                }
            }
        }).0;
        let t = match made {
            Out::Ok(t) => t,
            Out::Panic(p) => return self.viol(C01 | C02, "panic/twin", format!("building {} by route {how} panicked: {p}", m.show())),
            _ => return self.viol(C13, "budget/twin", "building did not finish".into()),
        };
        let l = self.call0(own, "interval_iter", rs.len() + 2, || D::list(&t))?;
        let (ts, pts) = self.listed(&l);
        if pts != Some(m) {
            // The route itself lost or gained points.
            self.soft(C01 | C02, false, "content/twin", || format!("route {how} to {} gave {ts:?}", m.show()))?;
            return Ok(());
        }
        self.soft(own, ts == rs, "canonical/twin", || format!("route {how} to {} lists {ts:?}, not {rs:?}", m.show()))?;
        self.pair(&v, &t, true, own | self.regs[x].taint, &format!("twin by route {}", how % 8))
    }

    fn iv_audit(&mut self, i: &D::Iv, m: Option<Bits>, own: u32, ctx: &str) -> R<Option<Bits>> {
        let r = self.d.decode(i);
        let got = self.d.cells_of(r);
        if let Some(m) = m {
            self.soft(own, got == Some(m), &format!("interval/{ctx}"), || format!("{ctx} gave {i:?}; expected the cells {}", m.show()))?;
        }
        if !D::TREE {
            let refi = self.d.reference(r);
            self.soft(C03 | (own & C09), *i == refi, &format!("normal-form/{ctx}"), || format!("{ctx} gave {i:?}, not the normal form {refi:?}"))?;
            let (h1, h2) = (hash_of(i), hash_of(&refi));
            self.soft(C03, h1 == h2, &format!("hash/{ctx}"), || format!("{ctx}: hash of {i:?} differs from its equal"))?;
            let e = D::iv_is_empty(i);
            self.soft(own | C03, e == (r == Repr::Empty), &format!("interval-empty/{ctx}"), || format!("{ctx}: is_empty of {i:?} is {e}"))?;
            if let Some(s) = self.d.is_single(i) {
                let one = matches!(r, Repr::R(a, b) if a == b);
                self.soft(C03, s == one, &format!("normal-form/{ctx}"), || format!("{ctx}: is_degenerate of {i:?} is {s}"))?;
            }
        }
        Ok(got)
    }

    fn iv_op(&mut self, dst: usize, k: u8, i: usize, j: usize, n: usize, f: &Fault) -> R {
        let own = if D::TREE { 0 } else { C02 | self.ivs[i].taint };
        let (a, b) = (self.ivs[i].v.clone(), self.ivs[j].v.clone());
        let (ma, mb) = (self.ivs[i].m, self.ivs[j].m);
        let names = ["interval intersect", "interval enclose", "interval closure", "interval union", "interval minus", "interval complement", "interval queries"];
        let name = names[k as usize % 7];
        let go = |a: &D::Iv, b: &D::Iv| match k % 7 {
            0 => vec![D::iv_intersect(a, b)],
            1 => vec![D::iv_enclose(a, b)],
            2 => vec![D::iv_closure(a)],
            3 => D::iv_union(a, b),
            4 => D::iv_minus(a, b),
            _ => D::iv_complement(a),
        };
        if k % 7 == 6 {
            let g = self.call0(own, name, 2, || D::iv_intersects(&a, &b))?;
            self.soft(own, g == !ma.and(mb).is_empty(), "interval-intersects", || format!("{a:?}.intersects({b:?}) is {g}"))?;
            for (ix, c) in self.sample_probes(&ma, false) {
                let p = D::T::mk(ix);
                let g = self.call0(own, name, 2, || D::iv_contains(&a, &p))?;
                self.soft(own, g == ma.has(c), "interval-contains", || format!("{a:?}.contains({p:?}) is {g}"))?;
            }
            let same = a == b;
            self.soft(if D::TREE { 0 } else { C03 }, same == (ma == mb) || D::TREE, "interval-equality", || format!("{a:?} == {b:?} is {same}"))?;
            return Ok(());
        }
        let want = match k % 7 {
            0 => ma.and(mb),
            1 => ma.or(mb).hull(),
            2 => if D::TREE { match self.d.cells_of(self.d.expect_closure(&ma)) { Some(m) => m, None => return Ok(()) } } else { ma },
            3 => ma.or(mb),
            4 => ma.sub(mb),
            _ => ma.not(self.n),
        };
        let arm = { let (a, b) = (a.clone(), b.clone()); self.arm(f, 2, move || { go(&a, &b); }) };
        let mut out = self.call(own, name, 2, arm, || go(&a, &b))?;
        if out.is_none() {
            if !f.retry { return Ok(()); }
            out = self.call(own | C05, name, 2, NO_ARM, || go(&a, &b))?;
        }
        let l = out.unwrap_or_default();
        let mut got = Some(Bits::EMPTY);
        for p in &l {
            let g = self.iv_audit(p, None, own, name)?;
            got = match (got, g) { (Some(x), Some(y)) => Some(x.or(y)), _ => None };
        }
        self.mixb(&want);
        let ok = self.soft(own, got == Some(want), &format!("content/{name}"), || format!("{name} of {a:?} and {b:?} gave {l:?}; expected the cells {}", want.show()))?;
        for (s, m) in [(i, ma), (j, mb)] {
            let v = self.ivs[s].v.clone();
            self.iv_audit(&v, Some(m), own, &format!("operand of {name}"))?;
        }
        if !ok { return Ok(()); }
        if !l.is_empty() {
            let p = l[n % l.len()].clone();
            if let Some(m) = self.d.cells_of(self.d.decode(&p)) { self.ivs[dst] = IvReg { v: p, m, taint: self.ivs[i].taint }; }
        }
        Ok(())
    }

    fn iv_take(&mut self, i: usize, r: usize, n: usize, how: u8) -> R {
        let v = self.regs[r].v.clone();
        let k = self.runs(r) + 1;
        let t = self.regs[r].taint;
        let mut l = match how % 4 {
            0 => self.call0(C03 | t, "interval_iter", k, || D::list(&v))?,
            1 => { let c = (*v).clone(); self.call0(C03 | t, "into_interval_iter", k, || D::into_list(c))? }
            2 => vec![self.call0(C02 | t, "enclose", k, || D::enclose(&v))?],
            _ => { let mut l = self.call0(C03 | t, "interval_iter", k, || D::list(&v))?; l.reverse(); l }
        };
        if l.is_empty() { return Ok(()); }
        let n = n % l.len();
        let p = l.swap_remove(n);
        let got = self.iv_audit(&p, None, C03 | t, "interval taken from a selection")?;
        let Some(m) = got else { return self.viol(0, "foreign", "unreadable interval".into()) };
        self.ivs[i] = IvReg { v: p, m, taint: t };
        Ok(())
    }

    fn open(&mut self, s: usize, k: u8, r: usize) -> R {
        let kind = k % D::ITERS;
        let v = self.regs[r].v.clone();
        let iv = self.ivs[r % IREGS].v.clone();
        let exp = self.d.open_expect(kind, &self.regs[r].m, &self.ivs[r % IREGS].m);
        let kk = self.runs(r) + 1;
        let own = C04 | self.regs[r].taint;
        crate::trace(C04 | C13, "opening an iterator");
        match self.d.open(kind, &v, &iv) {
            Some(it) => { self.slots[s] = Some(Slot { it, exp, k: kk, fused: D::open_fused(kind), done: false }); Ok(()) }
            None => self.viol(own, "panic/open", "opening an iterator panicked".into()),
        }
    }

    fn walk(&mut self, s: usize, back: bool, how: u8, n: u8, f: &Fault) -> R {
        let Some(mut slot) = self.slots[s].take() else { return Ok(()) };
        if slot.done && !slot.fused { return Ok(()); }
        let lim = self.limit(slot.k);
        crate::trace(C04 | C13, if back { "next_back" } else { "next" });
        let (name, cls) = if back { ("next_back", "iteration/back") } else { ("next", "iteration/front") };
        let steps: u8 = if how == 5 { 2 } else { 1 };
        for _ in 0..steps {
            if how == 6 {
                let h = slot.it.hint();
                let left = slot.exp.len();
                if let Out::Ok((lo, hi)) = h {
                    self.check(C04, (lo as u128) <= left && hi.map_or(true, |h| h as u128 >= left), "iteration/size_hint", || format!("size_hint ({lo}, {hi:?}) with {left} items left"))?;
                } else { return self.viol(C04, "panic/size_hint", "size_hint panicked".into()); }
            }
            let (out, want, len);
            if how == 4 {
                let before = slot.exp.len();
                let mut w = None;
                for _ in 0..=n { w = if back { slot.exp.back() } else { slot.exp.front() }; if w.is_none() { break; } }
                want = w;
                out = slot.it.nth(n as usize, back, lim.saturating_mul(u64::from(n) + 2));
                len = before;
                self.st.hit("probe: iterator skips");
            } else {
                len = slot.exp.len();
                want = if back { slot.exp.back() } else { slot.exp.front() };
                let arm = if f.kind == 1 && D::T::HOOKED {
                    Arm { mode: Mode::Panic, mask: f.mask, trip: 1 + u64::from(f.at) % 6 }
                } else { NO_ARM };
                let (o, rep) = if back { slot.it.next_back(lim, arm) } else { slot.it.next(lim, arm) };
                if rep.fired != 0 { self.faults_fired += 1; self.st.hit("fault: element unwinds"); }
                out = o;
            }
            self.st.calls += 1;
            self.mixd(out.code());
            match out {
                Out::Ok(g) => {
                    self.check(C04, g == want, cls, || format!("{name} gave {g:?}, expected {want:?} with {len} items left"))?;
                    if g.is_none() {
                        if slot.done { self.st.hit("probe: stepped after the end"); }
                        slot.done = true;
                        if !slot.fused { return Ok(()); }
                    }
                    if len == 1 { self.st.hit("probe: consumers met"); }
                }
                Out::Injected => { self.st.hit("probe: iterator abandoned after unwinding"); return Ok(()); }
                Out::Panic(m) => return self.viol(C04, &format!("panic/{name}"), format!("{name} panicked: {m}")),
                Out::Budget => return self.viol(if self.tight { C13 } else { C04 }, &format!("budget/{name}"), format!("{name} exceeded {lim} element operations on {} intervals", slot.k)),
            }
        }
        self.slots[s] = Some(slot);
        Ok(())
    }

    fn drain(&mut self, s: usize, how: u8) -> R {
        let Some(slot) = self.slots[s].take() else { return Ok(()) };
        if slot.done && !slot.fused { return Ok(()); }
        let left = slot.exp.len();
        let (how, cap) = if left > 400 { (if drain_cap(how) { how } else { how % 2 }, 40) }
            else { (how, 1000) };
        let lim = self.limit(slot.k).saturating_mul(left.min(400) as u64 + 3);
        let want = expect_drain(slot.exp, how, cap);
        crate::trace(C04 | C13, "drain");
        let (o, n) = slot.it.drain(how, cap, lim);
        self.st.calls += 1;
        self.st.elem_ops += n;
        self.st.hit("probe: iterator drained");
        self.mixd(o.code());
        match o {
            Out::Ok(g) => self.check(C04, g == want, &format!("iteration/drain{how}"), || format!("draining (adapter {how}) gave {g:?}, expected {want:?}")),
            Out::Panic(m) => self.viol(C04, &format!("panic/drain{how}"), format!("draining panicked: {m}")),
            _ => self.viol(if self.tight { C13 } else { C04 }, "budget/drain", format!("draining exceeded {lim} element operations")),
        }
    }

    fn encode<X: Serialize>(x: &X, fmt: u8, w: &mut Writer) -> Result<(), String> {
        match fmt % 3 {
            0 => serde_json::to_writer(w, x).map_err(|e| e.to_string()),
            1 => bincode::serialize_into(w, x).map_err(|e| e.to_string()),
            _ => {
                let v = serde_json::to_value(x).map_err(|e| e.to_string())?;
                serde_json::to_writer(w, &v).map_err(|e| e.to_string())
            }
        }
    }
    fn decode_doc<X: serde::de::DeserializeOwned>(b: &[u8], fmt: u8, how: u8, df: DiskFault, limit: usize, io: &mut Io) -> Result<X, String> {
        let mut r = Reader { data: b, pos: 0, f: df, limit, io: Io::default() };
        let plain = how % 3 == 1 && df.kind == 0;
        let out = match fmt % 3 {
            1 => if plain { bincode::deserialize(b).map_err(|e| e.to_string()) } else { bincode::deserialize_from(&mut r).map_err(|e| e.to_string()) },
            _ => if plain { serde_json::from_slice(b).map_err(|e| e.to_string()) }
                else if how % 3 == 2 {
                    serde_json::from_reader::<_, serde_json::Value>(&mut r).map_err(|e| e.to_string())
                        .and_then(|v| serde_json::from_value(v).map_err(|e| e.to_string()))
                } else { serde_json::from_reader(&mut r).map_err(|e| e.to_string()) },
        };
        *io = r.io;
        out
    }
    fn note_io(&mut self, io: Io) {
        self.st.add("fault: interrupted i/o call", io.eintr);
        self.st.add("fault: short i/o call", io.short);
        self.st.add("fault: i/o error", io.hard);
        self.faults_fired += u64::from(io.eintr + io.short + io.hard > 0);
    }
    fn wide(&self) -> bool { D::T::max_ix() > u128::from(u64::MAX) }

    fn save(&mut self, d: usize, fmt: u8, iv: bool, r: usize, df: DiskFault, retry: bool) -> R {
        // serde_json's Value has no 128-bit integers.
        let fmt = if self.wide() && fmt % 3 == 2 { 0 } else { fmt };
        let name = format!("d{d}");
        let own = C08 | if iv { self.ivs[r % IREGS].taint } else { self.regs[r].taint };
        let (v, i) = (self.regs[r].v.clone(), self.ivs[r % IREGS].v.clone());
        let k = self.runs(r) + 2;
        let enc = |w: &mut Writer| if iv { Self::encode(&i, fmt, w) } else { Self::encode(&*v, fmt, w) };
        // The full document, written to a reliable device.
        let mut whole = Vec::new();
        {
            let mut w = Writer { out: &mut whole, f: DiskFault::default(), limit: usize::MAX, io: Io::default() };
            self.call0(own, "serialize", k, || enc(&mut w))?.map_or_else(|e| self.viol(C08, "save/refused", format!("saving failed without a fault: {e}")), Ok)?;
        }
        let mut kind = df.kind;
        if (kind == 6 || kind == 7) && !D::T::HOOKED { kind = 0; }
        if kind == 5 && self.disk.read(&name).is_none() { kind = 0; }
        let limit = match kind { 1 | 2 => (df.at as usize * whole.len()) >> 16, _ => usize::MAX };
        // Count element serialisations to place an element fault.
        let arm = if kind == 6 || kind == 7 {
            let mut sink = Vec::new();
            let mut w = Writer { out: &mut sink, f: DiskFault::default(), limit: usize::MAX, io: Io::default() };
            let (_, rep) = hook::call(u64::MAX, Arm { mode: Mode::None, mask: hook::SER, trip: 0 }, || { let _ = enc(&mut w); });
            if rep.masked == 0 { NO_ARM } else {
                Arm { mode: if kind == 6 { Mode::Error } else { Mode::Panic }, mask: hook::SER, trip: 1 + ((u64::from(df.at) * rep.masked) >> 16) }
            }
        } else { NO_ARM };
        let mut bytes = Vec::new();
        let mut w = Writer { out: &mut bytes, f: df, limit, io: Io::default() };
        let out = self.call(own, "serialize", k, arm, || enc(&mut w))?;
        let io = w.io;
        self.note_io(io);
        // The value is unchanged, whatever happened.
        self.audit(&v, self.regs[r].m, C08, C08, false, "saving")?;
        let ok = match &out { Some(Ok(())) => true, _ => false };
        if limit < whole.len() || arm.trip != 0 {
            self.check(C08, !ok, "save/unreported", || "a save that failed midway was reported as done".into())?;
        } else {
            self.check(C08, ok, "save/refused", || format!("a save that met no failure was refused: {:?}", out.as_ref().and_then(|o| o.as_ref().err())))?;
            self.check(C08, bytes == whole, "save/bytes", || "a save through interrupted and short writes wrote other bytes".into())?;
        }
        let doc = || Doc { fmt, what: if iv { Saved::I(i.clone(), self.ivs[r % IREGS].m) } else { Saved::V((*v).clone(), self.regs[r].m) } };
        let doc = doc();
        let tmp = format!("{name}.tmp");
        match kind {
            5 => {
                // Overwrite in place, torn by a crash.
                let f = self.disk.files.get_mut(&name).unwrap();
                let cut = (df.at as usize * (bytes.len() + 1)) >> 16;
                for (i, b) in bytes[..cut].iter().enumerate() {
                    if i < f.cur.len() { f.cur[i] = *b; } else { f.cur.push(*b); }
                }
                self.disk.sync(&name);
                self.docs[d] = Some(Doc { fmt, what: Saved::Torn(iv) });
                self.faults_fired += 1;
                self.st.hit("fault: torn overwrite");
                return self.crash();
            }
            4 => {
                let phase = (df.at as usize * (bytes.len() + 4)) >> 16;
                self.faults_fired += 1;
                self.st.hit("fault: crash during save");
                let f = self.disk.files.entry(tmp.clone()).or_default();
                f.cur = bytes[..phase.min(bytes.len())].to_vec();
                f.durable = None;
                if phase > bytes.len() { self.disk.sync(&tmp); }
                if phase > bytes.len() + 1 { self.disk.rename(&tmp, &name); self.docs[d] = Some(doc); }
                return self.crash();
            }
            3 => {
                // The sync fails: not acknowledged, the temporary file is dropped.
                self.faults_fired += 1;
                self.st.hit("fault: sync fails");
                self.disk.files.remove(&tmp);
                if retry { return self.save(d, fmt, iv, r, DiskFault::default(), false); }
                return Ok(());
            }
            _ => {}
        }
        if !ok {
            self.st.hit("probe: save failed midway");
            if retry { return self.save(d, fmt, iv, r, DiskFault::default(), false); }
            return Ok(());
        }
        let f = self.disk.files.entry(tmp.clone()).or_default();
        f.cur = bytes;
        self.disk.sync(&tmp);
        self.disk.rename(&tmp, &name);
        self.docs[d] = Some(doc);
        self.st.hit("probe: save acknowledged");
        Ok(())
    }

    fn load(&mut self, r: usize, d: usize, df: DiskFault, how: u8, after_crash: bool) -> R {
        let how = if self.wide() && how % 3 == 2 { 0 } else { how };
        let Some(doc) = self.docs[d].take() else { return Ok(()) };
        let res = self.load_doc(r, d, &doc, df, how, after_crash);
        self.docs[d] = Some(doc);
        res
    }
    fn load_doc(&mut self, r: usize, d: usize, doc: &Doc<D>, mut df: DiskFault, how: u8, after_crash: bool) -> R {
        let Some(b) = self.disk.read(&format!("d{d}")).map(<[u8]>::to_vec) else {
            return self.viol(0, "harness", "acknowledged document is gone".into());
        };
        if df.kind >= 6 && !D::T::HOOKED { df.kind = 0; }
        let limit = if df.kind == 1 { (df.at as usize * b.len()) >> 16 } else { usize::MAX };
        let fmt = doc.fmt;
        let k = b.len() / 8 + 4;
        let is_iv = match &doc.what { Saved::I(..) => true, Saved::Torn(i) => *i, Saved::V(..) => false };
        if let Saved::Torn(_) = doc.what {
            return self.load_damaged(r, &b, fmt, how, is_iv, "torn document");
        }
        let mut io = Io::default();
        let arm = if df.kind >= 6 {
            let mask = hook::DE;
            let (_, rep) = hook::call(u64::MAX, Arm { mode: Mode::None, mask, trip: 0 }, || {
                let mut io = Io::default();
                if is_iv { drop(Self::decode_doc::<D::Iv>(&b, fmt, 0, DiskFault::default(), usize::MAX, &mut io)); }
                else { drop(Self::decode_doc::<D::V>(&b, fmt, 0, DiskFault::default(), usize::MAX, &mut io)); }
            });
            if rep.masked == 0 { NO_ARM } else {
                Arm { mode: if df.kind == 6 { Mode::Error } else { Mode::Panic }, mask, trip: 1 + ((u64::from(df.at) * rep.masked) >> 16) }
            }
        } else { NO_ARM };
        let bad = limit < b.len() || arm.trip != 0;
        match &doc.what {
            Saved::V(orig, m) => {
                let out = self.call(C08, "deserialize", k, arm, || Self::decode_doc::<D::V>(&b, fmt, how, df, limit, &mut io))?;
                self.note_io(io);
                match out {
                    Some(Ok(v)) => {
                        self.check(C08, !bad, "load/unreported", || "a load that failed midway was reported as done".into())?;
                        self.pair(&v, orig, true, C08, "restoring")?;
                        self.put(r, v, *m, C08);
                        self.st.hit(if after_crash { "probe: restored after crash" } else { "probe: restored" });
                        self.audit_reg(r, C08, false, "restoring")
                    }
                    Some(Err(e)) => { self.check(C08, bad, "load/refused", || format!("an intact document was refused: {e}"))?; self.st.hit("probe: load failed midway"); Ok(()) }
                    None => Ok(()),
                }
            }
            Saved::I(orig, m) => {
                let out = self.call(C08, "deserialize", k, arm, || Self::decode_doc::<D::Iv>(&b, fmt, how, df, limit, &mut io))?;
                self.note_io(io);
                match out {
                    Some(Ok(v)) => {
                        self.check(C08, !bad, "load/unreported", || "a load that failed midway was reported as done".into())?;
                        self.check(C08, v == *orig, "load/interval", || format!("restored {v:?} from {orig:?}"))?;
                        self.iv_audit(&v, Some(*m), C08, "restoring")?;
                        self.ivs[r % IREGS] = IvReg { v, m: *m, taint: C08 };
                        Ok(())
                    }
                    Some(Err(e)) => { self.check(C08, bad, "load/refused", || format!("an intact document was refused: {e}"))?; Ok(()) }
                    None => Ok(()),
                }
            }
            Saved::Torn(_) => Ok(()),
        }
    }

    /// All volatile state is lost; clients restart from what was saved.
    fn crash(&mut self) -> R {
        self.st.hit("fault: crash and restart");
        self.faults_fired += 1;
        self.disk.crash();
        for s in &mut self.slots { *s = None; }
        for r in 0..self.regs.len() { self.put(r, D::new_value(0), Bits::EMPTY, 0); }
        for i in 0..IREGS { self.ivs[i] = IvReg { v: self.d.iv(11, 0, 0), m: Bits::EMPTY, taint: 0 }; }
        for r in 0..self.regs.len() {
            self.load(r, r % DOCS, DiskFault::default(), r as u8, true)?;
        }
        Ok(())
    }

    /// Any bytes: an error, or a well-formed value.
    fn load_damaged(&mut self, r: usize, b: &[u8], fmt: u8, how: u8, is_iv: bool, what: &str) -> R {
        let k = b.len() + 40;
        let mut io = Io::default();
        let how = if self.wide() && how % 3 == 2 { 0 } else { how };
        self.faults_fired += 1;
        let df = DiskFault::default();
        if is_iv && !D::TREE {
            let out = self.call0(C09, "deserialize", k, || Self::decode_doc::<D::Iv>(b, fmt, how, df, usize::MAX, &mut io))?;
            let Ok(v) = out else { self.st.hit("probe: damaged interval rejected"); return Ok(()) };
            self.st.hit("probe: damaged interval restored");
            let rr = self.d.decode(&v);
            let refi = self.d.reference(rr);
            let ordered = match rr { Repr::Empty => true, Repr::R(B::Inc(a), B::Inc(b)) => a <= b, _ => false };
            self.check(C09 | C03, v == refi && ordered, "damaged/normal-form", || format!("{what} restored {v:?}, not in normal form"))?;
            match self.d.cells_of(rr) {
                Some(m) => { self.iv_audit(&v, Some(m), C09, what)?; self.ivs[r % IREGS] = IvReg { v, m, taint: C09 }; }
                None => {
                    // Beyond the modelled elements: use it once and drop it.
                    let w = D::from_iv(v.clone(), 0);
                    return self.self_check(&w, what);
                }
            }
            return Ok(());
        }
        let out = self.call0(C09, "deserialize", k, || Self::decode_doc::<D::V>(b, fmt, how, df, usize::MAX, &mut io))?;
        let v = match out { Ok(v) => v, Err(_) => { self.st.hit("probe: damaged value rejected"); return Ok(()) } };
        self.st.hit("probe: damaged value restored");
        let l = self.call0(C09, "interval_iter", k, || D::list(&v))?;
        let (rs, pts) = self.listed(&l);
        // Disjoint, ascending, non-empty.
        let key = |b: B, low: bool| match b { B::Inf => if low { (0u128, 0) } else { (u128::MAX, 3) }, B::Inc(x) => (x, 1), B::Exc(x) => (x, if low { 2 } else { 0 }) };
        let mut last: Option<(u128, i32)> = None;
        for rr in &rs {
            let ok = match *rr {
                Repr::Empty => false,
                Repr::R(a, b) => {
                    let (ka, kb) = (key(a, true), key(b, false));
                    let ok = ka <= kb && last.map_or(true, |l| l < ka || (a != B::Inf && l.0 == ka.0 && l.1 < ka.1));
                    last = Some(kb);
                    ok
                }
            };
            self.check(C09, ok, "damaged/list", || format!("{what} restored a value listing {rs:?}"))?;
        }
        match pts {
            Some(m) => {
                self.put(r, v, m, C09);
                self.audit_reg(r, C09, true, what)?;
                let v = self.regs[r].v.clone();
                self.self_check(&v, what)
            }
            None => self.self_check(&v, what),
        }
    }
    /// Queries and operations that must agree with each other on any value.
    fn self_check(&mut self, v: &D::V, what: &str) -> R {
        let k = 40;
        let own = C09;
        let (cc, mm, uu, ii) = self.call0(own, "operations", k * 4, || {
            let c = D::complement(v);
            (D::complement(&c), D::minus(v, v), D::union(v, v), D::intersect(v, v))
        })?;
        let e = D::is_empty(&mm);
        self.soft(own, cc == *v && e && uu == *v && ii == *v, "damaged/operations", || format!("{what} restored {v:?} whose operations contradict each other"))?;
        let l = self.call0(own, "interval_iter", k, || D::list(v))?;
        for i in &l {
            let r = self.d.decode(i);
            if let Repr::R(a, b) = r {
                for (x, y) in [(a, true), (b, true)] {
                    if let B::Inc(x) = x {
                        let p = D::T::mk(x);
                        let g = self.call0(own, "contains", k, || D::contains(v, &p))?;
                        self.soft(own, g == y, "damaged/contains", || format!("{what}: contains({p:?}) is {g} for {v:?}"))?;
                    }
                }
            }
            let mut t = v.clone();
            let i2 = i.clone();
            self.call0(own, "minus_in_place", k, || D::in_place(&mut t, 2, i2))?;
            let i2 = i.clone();
            self.call0(own, "union_in_place", k, || D::in_place(&mut t, 0, i2))?;
            self.soft(own, t == *v, "damaged/operations", || format!("{what}: removing and adding {i:?} changed {v:?}"))?;
        }
        let back = { let w = v.clone(); self.call0(own, "into_interval_iter", k, || D::into_list(w))? };
        self.soft(own, back == l, "damaged/list", || format!("{what}: {v:?} lists {l:?} and {back:?}"))?;
        if !D::TREE {
            let a = Arc::new(v.clone());
            let iv = self.ivs[0].v.clone();
            for kind in [0u8, 1] {
                if let Some(mut it) = self.d.open(kind, &a, &iv) {
                    for j in 0..6 {
                        let (o, _) = if j % 2 == 0 { it.next(1_000_000, NO_ARM) } else { it.next_back(1_000_000, NO_ARM) };
                        match o {
                            Out::Ok(Some(Item::Pt(x))) => {
                                let p = D::T::mk(x);
                                let g = self.call0(own, "contains", k, || D::contains(v, &p))?;
                                self.soft(own, g, "damaged/points", || format!("{what}: {v:?} iterates {p:?}, which it does not contain"))?;
                            }
                            Out::Ok(_) => {}
                            Out::Panic(m) => return self.viol(own, "panic/points", format!("{what}: iterating {v:?} panicked: {m}")),
                            _ => return self.viol(own | C13, "budget/points", format!("{what}: iterating {v:?} does not finish")),
                        }
                    }
                }
            }
        }
        Ok(())
    }

    fn load_bad(&mut self, r: usize, d: usize, fmt: u8, src: u8, dmg: &[Damage]) -> R {
        let json = fmt != 1;
        let fmt = if fmt == 1 { 1 } else { 0 };
        let n = if D::TREE { Range { n: self.n as u64, odd: true } } else { Range { n: self.d.args() as u64, odd: false } };
        let is_iv = src == 1 && !D::TREE;
        let plain = |v: &D::V, fmt: u8| -> Vec<u8> {
            let mut out = Vec::new();
            let _ = Self::encode(v, fmt, &mut Writer { out: &mut out, f: DiskFault::default(), limit: usize::MAX, io: Io::default() });
            out
        };
        let other = plain(&self.regs[r].v.clone(), fmt);
        let mut b = if is_iv {
            let mut out = Vec::new();
            let _ = Self::encode(&self.ivs[d % IREGS].v.clone(), fmt, &mut Writer { out: &mut out, f: DiskFault::default(), limit: usize::MAX, io: Io::default() });
            out
        } else if src == 3 && json {
            let mut v: Vec<serde_json::Value> = Vec::new();
            for x in dmg { v.push(json_tine(x.a, x.b, n)); }
            serde_json::to_vec(&v).unwrap_or_default()
        } else { plain(&self.regs[d].v.clone(), fmt) };
        for x in dmg {
            if json && x.k >= 7 {
                if let Ok(mut v) = serde_json::from_slice::<serde_json::Value>(&b) {
                    damage_json(&mut v, x.k, x.a, x.b, n);
                    b = serde_json::to_vec(&v).unwrap_or_default();
                    self.st.hit("fault: saved structure edited");
                    continue;
                }
            }
            damage_bytes(&mut b, &other, x.k % 7, x.a, x.b);
            self.st.hit(["fault: saved bytes truncated", "fault: saved bit flipped", "fault: saved bytes dropped", "fault: saved bytes duplicated", "fault: saved bytes zeroed", "fault: saved documents glued", "fault: saved documents spliced"][x.k as usize % 7]);
        }
        if b.len() > 20_000 { return Ok(()); }
        for x in &b { self.mixd(u64::from(*x)); }
        self.load_damaged(r, &b, fmt, (d + r) as u8, is_iv, "damaged document")
    }

    fn exec(&mut self, s: &Step) -> R {
        self.st.steps += 1;
        let f = if D::T::HOOKED { s.f } else { Fault::default() };
        match &s.op {
            Op::New { r, how } => {
                let r = self.reg(*r);
                if *how >= 10 {
                    let v = self.call0(C01, "full", 2, || D::full_value(*how))?;
                    self.put(r, v, Bits::full(self.n), 0);
                } else {
                    let v = self.call0(C01, "new", 2, || D::new_value(*how))?;
                    self.put(r, v, Bits::EMPTY, 0);
                }
                self.audit_reg(r, C01, false, "construction")
            }
            Op::Make { r, iv, how } => {
                let r = self.reg(*r);
                let (x, m) = (self.iv(C01, iv)?, self.iv_model(iv));
                let v = self.call0(C01, "from interval", 2, || D::from_iv(x, *how))?;
                self.put(r, v, m, 0);
                self.audit_reg(r, C01, false, "construction")
            }
            Op::InPlace { r, k, iv } => { let r = self.reg(*r); self.in_place(r, *k % 3, iv, &f) }
            Op::Derive { d, k, x, y } => { let (d, x, y) = (self.reg(*d), self.reg(*x), self.reg(*y)); self.derive(d, *k, x, y, &f) }
            Op::Extend { r, s } => { let r = self.reg(*r); self.extend(r, s, &f) }
            Op::Collect { d, s, how } => { let d = self.reg(*d); self.collect(d, s, *how, &f) }
            Op::Query { x, y } => { let (x, y) = (self.reg(*x), self.reg(*y)); self.query(x, y) }
            Op::Twin { x, how } => { let x = self.reg(*x); self.twin(x, *how) }
            Op::IvMake { i, iv } => {
                let (x, m) = (self.iv(C01, iv)?, self.iv_model(iv));
                let own = if D::TREE { 0 } else { C02 };
                let t = if iv.st == IV_REG { self.ivs[iv.a as usize % IREGS].taint } else { 0 };
                let got = self.iv_audit(&x, Some(m), own, "interval constructor")?;
                if let Some(m) = got { self.ivs[*i as usize % IREGS] = IvReg { v: x, m, taint: t }; }
                Ok(())
            }
            Op::IvOp { d, k, i, j, n } => self.iv_op(*d as usize % IREGS, *k, *i as usize % IREGS, *j as usize % IREGS, *n as usize, &f),
            Op::IvTake { i, r, n, how } => { let r = self.reg(*r); self.iv_take(*i as usize % IREGS, r, *n as usize, *how) }
            Op::Open { s, k, r } => { let r = self.reg(*r); self.open(*s as usize % SLOTS, *k, r) }
            Op::Walk { s, back, how, n } => self.walk(*s as usize % SLOTS, *back, *how, *n, &f),
            Op::Drain { s, how } => self.drain(*s as usize % SLOTS, *how % DRAINS),
            Op::Close { s } => { if self.slots[*s as usize % SLOTS].take().is_some() { self.st.hit("probe: iterator abandoned"); } Ok(()) }
            Op::Save { d, fmt, iv, r, df, retry } => { let r = self.reg(*r); self.save(*d as usize % DOCS, *fmt, *iv, r, *df, *retry) }
            Op::Load { r, d, df, how } => { let r = self.reg(*r); self.load(r, *d as usize % DOCS, *df, *how, false) }
            Op::Crash => self.crash(),
            Op::LoadBad { r, d, fmt, src, dmg } => { let (r, d) = (self.reg(*r), self.reg(*d)); self.load_bad(r, d, *fmt, *src, dmg) }
            Op::Bulk { k, s } => self.bulk(*k, s),
            Op::Ints { t, ops } => self.ints(*t, ops),
        }
    }

    /// Open iterators see their snapshot through to the end.
    fn finish(&mut self) -> R {
        for s in 0..SLOTS {
            if self.slots[s].is_some() { self.drain(s, (s % 2) as u8)?; }
        }
        for r in 0..self.regs.len() {
            let t = self.regs[r].taint;
            self.audit_reg(r, C01 | t, true, "the history")?;
        }
        Ok(())
    }

    fn go(&mut self, steps: &[Step]) -> R {
        for (i, s) in steps.iter().enumerate() {
            self.step = i;
            crate::at_step(i);
            self.exec(s)?;
        }
        self.step = steps.len();
        self.finish()
    }
}

fn run_dom<D: Dom>(p: &MachinePlan, prop: &str, st: &mut Stats) -> RunResult {
    let mut m: Machine<'_, D> = Machine::new(p, prop, st);
    let out = m.go(&p.steps);
    let (digest, owned, fired, mine) = (m.digest, m.owned_oracles, m.faults_fired, m.mine);
    let end = m.step;
    drop(m);
    hook::set_nest(None);
    let mut viol = None;
    let mut foreign = None;
    if let Err(v) = out {
        if v.owners & mine != 0 { viol = Some(v); } else { foreign = Some(v); }
    }
    let mut owned = owned;
    if viol.is_none() && mine & C12 != 0 && D::T::HOOKED {
        owned += 1;
        let l = elem::live();
        if l != 0 {
            viol = Some(Viol { owners: C12, class: "balance".into(), step: end,
                msg: format!("{} element values {} when everything was gone", l.abs(), if l > 0 { "were never dropped" } else { "were dropped twice" }) });
        }
    }
    let needs_fault = mine & (C05 | C06 | C08 | C09) != 0;
    RunResult { viol, foreign, digest: mix(digest ^ end as u64), nontrivial: owned > 0 && (!needs_fault || fired > 0) }
}

pub fn run(p: &MachinePlan, prop: &str, st: &mut Stats) -> RunResult {
    if p.tree { return run_dom::<Tree<elem::El>>(p, prop, st); }
    match p.elem.as_str() {
        "u8" => run_dom::<Sel<u8>>(p, prop, st),
        "i8" => run_dom::<Sel<i8>>(p, prop, st),
        "i32" => run_dom::<Sel<i32>>(p, prop, st),
        "i128" => run_dom::<Sel<i128>>(p, prop, st),
        _ => run_dom::<Sel<elem::El>>(p, prop, st),
    }
}

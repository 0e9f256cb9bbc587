//! Client threads over shared values. Real OS threads, of which the simulator
//! lets exactly one run at a time; it decides at every element operation,
//! lock and client step which one goes on.

use crate::bits::Bits;
use crate::dom::*;
use crate::elem::{self, El};
use crate::hook::{self, Arm, Mode, Out, NO_ARM};
use crate::machine::{prop_bit, RunResult, Stats, Viol, C01, C05, C07};
use crate::plan::{Fault, Iv, INTERVAL_STYLE_OF_INTEREST};
use crate::rng::{mix, Rng};
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum COp {
    /// Reads of one or two shared, unchanging values. `k` chooses the call.
    Read { k: u8, x: u8, y: u8 },
    /// Reads of an own value `p` against a shared one.
    Mixed { k: u8, p: u8, x: u8 },
    /// Own value := a shared one, cloned.
    Take { p: u8, x: u8 },
    /// In-place operation on an own value.
    Own { p: u8, k: u8, iv: Iv },
    /// In-place operation on a value behind a lock.
    Write { l: u8, k: u8, iv: Iv },
    /// Own value := a copy of a locked one.
    Fetch { p: u8, l: u8 },
    /// Reads of a locked value.
    Look { k: u8, l: u8 },
    /// Two-ended iteration over a shared value, `n` steps, `pat` decides the ends.
    Iter { k: u8, x: u8, n: u8, pat: u16 },
    /// Builds a value from a stream of intervals.
    Collect { p: u8, ivs: Vec<Iv> },
    /// Saves an own or shared value to text and restores it.
    Saved { p: u8, x: u8 },
    Nothing,
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct CStep { pub op: COp, pub f: Fault, pub stall: bool }

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Sched {
    /// Switch with chance num/den at every decision.
    Walk { seed: u64, num: u16, den: u16 },
    /// Priorities, lowered at `d` decisions among the first `len`.
    Pct { seed: u64, d: u16, len: u32 },
    /// (decision, client) switches; otherwise go on.
    Trace(Vec<(u32, u8)>),
    /// One client at a time, whole steps in this order.
    Serial(Vec<u8>),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct ThreadPlan {
    pub tree: bool,
    pub n: u16,
    /// Intervals each shared value is made of (`true`: removed).
    pub shared: Vec<Vec<(bool, Iv)>>,
    pub locked: Vec<Vec<(bool, Iv)>>,
    pub clients: Vec<Vec<CStep>>,
    pub sched: Sched,
}

pub const OWN: usize = 2;

pub fn gen_threads(r: &mut Rng) -> ThreadPlan {
    let tree = r.chance(40, 100);
    let n = *r.pick(&[2u16, 3, 4, 6, 8, 12, 20, 30]);
    let iv = |r: &mut Rng| {
        let st = *r.pick(&INTERVAL_STYLE_OF_INTEREST);
        let (a, b) = (r.below(n as usize) as u16, r.below(n as usize) as u16);
        Iv { st, a: a.min(b), b: a.max(b) }
    };
    let build = |r: &mut Rng| -> Vec<(bool, Iv)> { (0..r.range(0, 7)).map(|_| (r.chance(1, 4), iv(r))).collect() };
    let shared: Vec<_> = (0..r.range(1, 3)).map(|_| build(r)).collect();
    let locked: Vec<_> = (0..r.range(1, 2)).map(|_| build(r)).collect();
    let (ns, nl) = (shared.len(), locked.len());
    // In a rush, many clients are inside the same few calls at once.
    let rush = r.chance(3, 10);
    let nc = if rush { *r.pick(&[3usize, 4, 5, 6]) } else { *r.pick(&[2usize, 2, 2, 3, 3, 4]) };
    let few: Vec<(usize, u8)> = (0..r.range(1, 2)).map(|_| (*r.pick(&[0usize, 0, 0, 0, 10, 12, 16, 17, 18, 19]), r.below(56) as u8)).collect();
    let faults = r.chance(6, 10);
    let clients = (0..nc).map(|_| {
        let len = if rush { r.range(2, 6) } else { r.range(2, 10) };
        (0..len).map(|_| {
            let (x, y) = (r.below(ns) as u8, r.below(ns) as u8);
            let (p, l) = (r.below(OWN) as u8, r.below(nl) as u8);
            let (kind, how) = if rush && r.chance(4, 5) { *r.pick(&few) } else { (r.below(20), r.below(168) as u8) };
            let op = match kind {
                0..=6 => COp::Read { k: how % 14, x, y },
                7 | 8 => COp::Mixed { k: how % 4, p, x },
                9 => COp::Take { p, x },
                10 | 11 => COp::Own { p, k: how % 3, iv: iv(r) },
                12..=14 => COp::Write { l, k: how % 3, iv: iv(r) },
                15 => COp::Fetch { p, l },
                16 => COp::Look { k: how % 14, l },
                17 => COp::Iter { k: how % 8, x, n: r.range(1, 12) as u8, pat: r.u64() as u16 },
                18 => COp::Collect { p, ivs: (0..r.range(0, 6)).map(|_| iv(r)).collect() },
                _ => COp::Saved { p, x },
            };
            let f = if faults && r.chance(15, 100) {
                let mask = *r.pick(&[hook::CMP, hook::CLONE, hook::PRED | hook::SUCC, hook::ELEMENT, hook::ELEMENT]);
                Fault { kind: 1, mask, at: r.below(40) as u16, retry: r.chance(1, 2) }
            } else { Fault::default() };
            CStep { op, f, stall: r.chance(1, 10) }
        }).collect()
    }).collect();
    let seed = r.u64();
    let sched = match r.below(10) {
        0..=3 => Sched::Walk { seed, num: 1, den: *r.pick(&[2u16, 4, 8]) },
        4..=6 => Sched::Walk { seed, num: 1, den: *r.pick(&[16u16, 40, 100]) },
        _ => Sched::Pct { seed, d: r.range(1, 5) as u16, len: *r.pick(&[100u32, 400, 1500]) },
    };
    ThreadPlan { tree, n, shared, locked, clients, sched }
}

////////////////////////////////////////////////////////////////////////////////
// Scheduler
////////////////////////////////////////////////////////////////////////////////

#[derive(Clone, Copy, PartialEq, Eq)]
enum St { Ready, Blocked(usize), Stalled, Done }

struct Core {
    st: Vec<St>,
    cur: usize,
    owner: Vec<Option<usize>>,
    rng: Rng,
    sched: Sched,
    prio: Vec<u64>,
    changes: Vec<u32>,
    decision: u32,
    trace: Vec<(u32, u8)>,
    at: usize,
    progress: u64,
    abort: bool,
    switches: u64,
    hash: u64,
    /// Clients in the order their steps took effect; steps that unwound without any.
    order: Vec<u8>,
    void: Vec<(u8, u16)>,
    viol: Option<Viol>,
    oracle: u64,
    digests: Vec<u64>,
    counts: Vec<(String, u64)>,
    elem_ops: u64,
    calls: u64,
    stalls: u64,
    waits: u64,
}

struct Shared { core: Mutex<Core>, cv: Condvar }

fn lock(s: &Shared) -> MutexGuard<'_, Core> { s.core.lock().unwrap_or_else(|e| e.into_inner()) }

thread_local! {
    static ME: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
    static STALL: Cell<bool> = const { Cell::new(false) };
    static STEP: Cell<usize> = const { Cell::new(0) };
}

impl Core {
    fn ready(&self) -> Vec<usize> { (0..self.st.len()).filter(|i| self.st[*i] == St::Ready).collect() }
    /// Who goes on; `me` may be among the ready ones or not.
    fn choose(&mut self, me: Option<usize>, step_end: bool) -> Option<usize> {
        let mut ready = self.ready();
        if ready.is_empty() {
            // Nobody else can move: stalled clients wake up.
            for s in &mut self.st { if *s == St::Stalled { *s = St::Ready; } }
            ready = self.ready();
            if ready.is_empty() { return None; }
        }
        let d = self.decision;
        self.decision += 1;
        let keep = me.filter(|m| ready.contains(m));
        let other: Vec<usize> = ready.iter().copied().filter(|x| Some(*x) != keep).collect();
        let next = match &self.sched {
            Sched::Walk { num, den, .. } => {
                let (num, den) = (*num as usize, *den as usize);
                match keep {
                    Some(k) if other.is_empty() || !self.rng.chance(num, den) => k,
                    _ => { let i = self.rng.below(other.len()); other[i] }
                }
            }
            Sched::Pct { .. } => {
                if self.changes.contains(&d) {
                    if let Some(k) = keep { self.prio[k] = u64::from(u32::MAX - d); }
                }
                *ready.iter().max_by_key(|i| self.prio[**i]).unwrap()
            }
            Sched::Trace(t) => {
                while self.at < t.len() && t[self.at].0 < d { self.at += 1; }
                let want = t.get(self.at).filter(|e| e.0 == d).map(|e| e.1 as usize);
                match want.filter(|w| ready.contains(w)) {
                    Some(w) => w,
                    None => keep.unwrap_or(ready[0]),
                }
            }
            Sched::Serial(o) => {
                if step_end || keep.is_none() {
                    let mut pick = None;
                    while self.at < o.len() {
                        let w = o[self.at] as usize;
                        if ready.contains(&w) { pick = Some(w); break; }
                        self.at += 1;
                    }
                    pick.unwrap_or(ready[0])
                } else { keep.unwrap() }
            }
        };
        let natural = keep.unwrap_or(ready[0]);
        if next != natural { self.trace.push((d, next as u8)); }
        if keep.is_some() && Some(next) != keep { self.switches += 1; }
        self.hash = mix(self.hash ^ (next as u64) << 32 ^ u64::from(next != natural));
        Some(next)
    }
}

/// A decision point of the running client.
fn point(step_end: bool) {
    let Some((s, me)) = ME.with(|m| m.borrow().clone()) else { return };
    let mut c = lock(&s);
    if c.abort { drop(c); std::panic::panic_any(hook::Abort); }
    c.progress += 1;
    if STALL.with(|x| x.replace(false)) && c.ready().len() > 1 {
        c.st[me] = St::Stalled;
        c.stalls += 1;
    }
    let serial = step_end && matches!(c.sched, Sched::Serial(_));
    while let Some(n) = c.choose(Some(me), step_end) {
        if n == me { if serial { c.at += 1; } return; }
        c.cur = n;
        s.cv.notify_all();
        wait(&s, c, me);
        if !serial { return; }
        // Each step of a serial run is taken by its client alone.
        c = lock(&s);
    }
}

fn wait(s: &Shared, mut c: MutexGuard<'_, Core>, me: usize) {
    while c.cur != me && !c.abort {
        c = s.cv.wait(c).unwrap_or_else(|e| e.into_inner());
    }
    let abort = c.abort;
    drop(c);
    if abort { std::panic::panic_any(hook::Abort); }
}

fn on_hit(_kind: u16) { point(false); }

fn acquire(l: usize) {
    let Some((s, me)) = ME.with(|m| m.borrow().clone()) else { return };
    loop {
        let mut c = lock(&s);
        if c.abort { drop(c); std::panic::panic_any(hook::Abort); }
        if c.owner[l].is_none() { c.owner[l] = Some(me); c.order.push(me as u8); return; }
        c.st[me] = St::Blocked(l);
        c.waits += 1;
        match c.choose(None, false) {
            Some(n) => { c.cur = n; s.cv.notify_all(); wait(&s, c, me); }
            None => { c.abort = true; s.cv.notify_all(); drop(c); std::panic::panic_any(hook::Abort); }
        }
    }
}
fn release(l: usize) {
    let Some((s, _)) = ME.with(|m| m.borrow().clone()) else { return };
    let mut c = lock(&s);
    c.owner[l] = None;
    for st in &mut c.st { if *st == St::Blocked(l) { *st = St::Ready; } }
    drop(c);
    point(false);
}

////////////////////////////////////////////////////////////////////////////////
// Clients
////////////////////////////////////////////////////////////////////////////////

/// Hands values to other threads whatever the compiler thinks of their type;
/// whether it agrees is checked separately.
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}

struct World<D: Dom> {
    d: D,
    shared: Vec<(Arc<D::V>, Bits)>,
    locked: Vec<Mutex<(D::V, Bits)>>,
}

fn hash_of<H: Hash>(h: &H) -> u64 { let mut s = DefaultHasher::new(); h.hash(&mut s); s.finish() }

struct Client<'w, D: Dom> { w: &'w World<D>, own: Vec<(D::V, Bits)>, s: Arc<Shared>, me: usize, dig: u64, counts: Vec<(String, u64)>, oracle: u64 }

type R<T = ()> = Result<T, Viol>;

impl<D: Dom> Client<'_, D> {
    fn bad<T>(&self, class: &str, msg: String) -> R<T> {
        Err(Viol { owners: C07, class: class.into(), msg: format!("client {}: {msg}", self.me), step: STEP.with(Cell::get) })
    }
    fn eq<A: PartialEq + std::fmt::Debug>(&mut self, class: &str, got: A, want: A) -> R {
        self.oracle += 1;
        if got == want { Ok(()) } else { self.bad(class, format!("got {got:?}, alone it is {want:?}")) }
    }
    fn hit(&mut self, k: &str) {
        if let Some(c) = self.counts.iter_mut().find(|c| c.0 == k) { c.1 += 1; } else { self.counts.push((k.into(), 1)); }
    }
    /// `None`: unwound as injected.
    fn call<T>(&mut self, name: &str, arm: Arm, f: impl FnOnce() -> T) -> R<Option<T>> {
        crate::trace(C07, name);
        let (o, rep) = hook::call(50_000_000, arm, f);
        self.dig = mix(self.dig ^ o.code() ^ rep.count << 8);
        { let mut c = lock(&self.s); c.calls += 1; c.elem_ops += rep.count; }
        match o {
            Out::Ok(x) => Ok(Some(x)),
            Out::Injected => {
                self.hit("fault: client unwinds inside a call");
                lock(&self.s).void.push((self.me as u8, STEP.with(Cell::get) as u16));
                Ok(None)
            }
            Out::Budget => self.bad(&format!("budget/{name}"), format!("{name} does not finish")),
            Out::Panic(m) => self.bad(&format!("panic/{name}"), format!("{name} panicked: {m}")),
        }
    }
    fn list(&mut self, class: &str, v: &D::V, m: &Bits) -> R {
        let Some(l) = self.call("interval_iter", NO_ARM, || D::list(v))? else { return Ok(()) };
        let d = &self.w.d;
        let (got, want): (Vec<Repr>, Vec<Repr>) = (l.iter().map(|i| d.decode(i)).collect(), d.expect_runs(m));
        self.eq(class, got, want)
    }

    /// One read of `v` (and `o`), as `k` says.
    fn read(&mut self, k: u8, v: &D::V, m: &Bits, o: &D::V, om: &Bits, arm: Arm) -> R {
        let w = self.w;
        let d = &w.d;
        let n = d.cells();
        match k % 14 {
            0 | 1 => {
                for (ix, c) in d.probes() {
                    let p = <D::T as elem::Elem>::mk(ix);
                    if let Some(g) = self.call("contains", arm, || D::contains(v, &p))? { self.eq("concurrent/contains", g, m.has(c))?; }
                }
                Ok(())
            }
            2 => self.list("concurrent/list", v, m),
            3 => {
                if let Some(c) = self.call("complement", arm, || D::complement(v))? { self.list("concurrent/complement", &c, &m.not(n))?; }
                Ok(())
            }
            4 => { if let Some(c) = self.call("union", arm, || D::union(v, o))? { self.list("concurrent/union", &c, &m.or(*om))?; } Ok(()) }
            5 => { if let Some(c) = self.call("intersect", arm, || D::intersect(v, o))? { self.list("concurrent/intersect", &c, &m.and(*om))?; } Ok(()) }
            6 => { if let Some(c) = self.call("minus", arm, || D::minus(v, o))? { self.list("concurrent/minus", &c, &m.sub(*om))?; } Ok(()) }
            7 => { if let Some(c) = self.call("intersects", arm, || D::intersects(v, o))? { self.eq("concurrent/intersects", c, !m.and(*om).is_empty())?; } Ok(()) }
            8 => {
                if let Some(c) = self.call("enclose", arm, || D::enclose(v))? { let g = d.decode(&c); self.eq("concurrent/enclose", g, d.expect_hull(m))?; }
                if let Some(c) = self.call("closure", NO_ARM, || D::closure(v))? { let g = d.decode(&c); self.eq("concurrent/closure", g, d.expect_closure(m))?; }
                Ok(())
            }
            9 => { if let Some(c) = self.call("eq", arm, || v == o)? { self.eq("concurrent/eq", c, m == om)?; } Ok(()) }
            10 => {
                if let Some(a) = self.call("hash", arm, || hash_of(v))? {
                    if m == om { if let Some(b) = self.call("hash", NO_ARM, || hash_of(o))? { self.eq("concurrent/hash", a, b)?; } }
                }
                Ok(())
            }
            11 => { if let Some(c) = self.call("clone", arm, || v.clone())? { self.list("concurrent/clone", &c, m)?; } Ok(()) }
            12 => {
                if let Some(e) = self.call("is_empty", arm, || (D::is_empty(v), D::is_full(v)))? { self.eq("concurrent/is_empty", e, (m.is_empty(), *m == Bits::full(n)))?; }
                Ok(())
            }
            _ => {
                if let Some(t) = self.call("debug", arm, || format!("{v:?}"))? { self.dig = mix(self.dig ^ crate::rng::hash_str(&t)); }
                Ok(())
            }
        }
    }

    fn in_place(&mut self, v: &mut D::V, m: &mut Bits, k: u8, iv: &Iv, arm: Arm, retry: bool) -> R {
        let w = self.w;
        let d = &w.d;
        let n = d.args();
        let (st, a, b) = (iv.st % INTERVAL_STYLES, iv.a as usize % n, iv.b as usize % n);
        let im = d.iv_model(st, a, b);
        let apply = |m: &Bits| match k % 3 { 0 => m.or(im), 1 => m.and(im), _ => m.sub(im) };
        let after = apply(m);
        let name = ["union_in_place", "intersect_in_place", "minus_in_place"][k as usize % 3];
        let done = self.call(name, arm, || D::in_place(v, k % 3, d.iv(st, a, b)))?.is_some();
        if done { *m = after; }
        else {
            let Some(l) = self.call("interval_iter", NO_ARM, || D::list(v))? else { return Ok(()) };
            let got: Vec<Repr> = l.iter().map(|i| d.decode(i)).collect();
            let applied = got == d.expect_runs(&after);
            if applied { *m = after; }
            if applied || retry { lock(&self.s).void.pop(); }
            if !applied && got != d.expect_runs(m) {
                return Err(Viol { owners: C05, class: "atomicity".into(), msg: format!("{name} left {got:?}"), step: STEP.with(Cell::get) });
            }
            if retry {
                self.call(name, NO_ARM, || D::in_place(v, k % 3, d.iv(st, a, b)))?;
                *m = after;
            }
        }
        self.list("concurrent/in_place", v, m)
    }

    fn step(&mut self, s: &CStep) -> R {
        let w = self.w;
        let d = &w.d;
        let (ns, nl) = (w.shared.len(), w.locked.len());
        let serial = matches!(lock(&self.s).sched, Sched::Serial(_));
        let arm = if s.f.kind == 1 && !serial { Arm { mode: Mode::Panic, mask: s.f.mask, trip: 1 + u64::from(s.f.at) } } else { NO_ARM };
        if s.stall && !serial { STALL.with(|x| x.set(true)); }
        match &s.op {
            COp::Read { k, x, y } => {
                let (x, y) = (&w.shared[*x as usize % ns], &w.shared[*y as usize % ns]);
                self.read(*k, &x.0, &x.1, &y.0, &y.1, arm)
            }
            COp::Mixed { k, p, x } => {
                let x = &w.shared[*x as usize % ns];
                let i = *p as usize % OWN;
                let (v, m) = std::mem::replace(&mut self.own[i], (D::new_value(0), Bits::EMPTY));
                let r = self.read(4 + *k % 4, &v, &m, &x.0, &x.1, arm);
                self.own[i] = (v, m);
                r
            }
            COp::Take { p, x } => {
                let x = &w.shared[*x as usize % ns];
                if let Some(v) = self.call("clone", arm, || (*x.0).clone())? { self.own[*p as usize % OWN] = (v, x.1); }
                Ok(())
            }
            COp::Own { p, k, iv } => {
                let i = *p as usize % OWN;
                let (mut v, mut m) = std::mem::replace(&mut self.own[i], (D::new_value(0), Bits::EMPTY));
                let r = self.in_place(&mut v, &mut m, *k, iv, arm, s.f.retry);
                self.own[i] = (v, m);
                r
            }
            COp::Write { l, k, iv } => {
                let l = *l as usize % nl;
                acquire(l);
                // The simulated lock admits one client: this never blocks.
                let mut g = w.locked[l].lock().unwrap_or_else(|e| e.into_inner());
                let (v, m) = &mut *g;
                let r = self.in_place(v, m, *k, iv, arm, s.f.retry);
                drop(g);
                release(l);
                r
            }
            COp::Fetch { p, l } => {
                let l = *l as usize % nl;
                acquire(l);
                let g = w.locked[l].lock().unwrap_or_else(|e| e.into_inner());
                let r = self.call("clone", arm, || g.0.clone());
                let m = g.1;
                drop(g);
                release(l);
                if let Some(v) = r? { self.own[*p as usize % OWN] = (v, m); }
                let i = *p as usize % OWN;
                let (v, m) = self.own[i].clone();
                self.list("concurrent/clone", &v, &m)
            }
            COp::Look { k, l } => {
                let l = *l as usize % nl;
                acquire(l);
                let g = w.locked[l].lock().unwrap_or_else(|e| e.into_inner());
                let r = self.read(*k, &g.0, &g.1, &w.shared[0].0, &w.shared[0].1, arm);
                drop(g);
                release(l);
                r
            }
            COp::Iter { k, x, n, pat } => {
                let x = &w.shared[*x as usize % ns];
                let k = *k % D::ITERS;
                let (st, a, b) = (0, 0, d.args() - 1);
                let iv = d.iv(st, a, b);
                let im = d.iv_model(st, a, b);
                let Some(mut it) = d.open(k, &x.0, &iv) else { return Ok(()) };
                let mut exp = d.open_expect(k, &x.1, &im);
                for i in 0..*n {
                    point(false);
                    let back = pat >> (i % 16) & 1 == 1;
                    let (o, rep) = if back { it.next_back(1_000_000, NO_ARM) } else { it.next(1_000_000, NO_ARM) };
                    self.dig = mix(self.dig ^ rep.count);
                    let want = if back { exp.back() } else { exp.front() };
                    let end = want.is_none();
                    match o {
                        Out::Ok(g) => self.eq("concurrent/iter", g, want)?,
                        Out::Panic(m) => return self.bad("panic/iter", format!("iteration panicked: {m}")),
                        _ => return self.bad("budget/iter", "iteration does not finish".into()),
                    }
                    if end { break; }
                }
                Ok(())
            }
            COp::Collect { p, ivs } => {
                let n = d.args();
                let mut m = Bits::EMPTY;
                for i in ivs { m = m.or(d.iv_model(i.st % INTERVAL_STYLES, i.a as usize % n, i.b as usize % n)); }
                let made = self.call("collect", arm, || {
                    let mut it = ivs.iter().map(|i| d.iv(i.st % INTERVAL_STYLES, i.a as usize % n, i.b as usize % n));
                    D::collect_iv(&mut it, 0)
                })?;
                if let Some(v) = made { self.list("concurrent/collect", &v, &m)?; self.own[*p as usize % OWN] = (v, m); }
                Ok(())
            }
            COp::Saved { p, x } => {
                let x = &w.shared[*x as usize % ns];
                let got = self.call("serde", NO_ARM, || {
                    let b = serde_json::to_vec(&*x.0).map_err(|e| e.to_string())?;
                    serde_json::from_slice::<D::V>(&b).map_err(|e| e.to_string())
                })?;
                match got {
                    Some(Ok(v)) => { self.list("concurrent/restored", &v, &x.1)?; self.own[*p as usize % OWN] = (v, x.1); Ok(()) }
                    Some(Err(e)) => self.bad("concurrent/serde", format!("restoring failed: {e}")),
                    None => Ok(()),
                }
            }
            COp::Nothing => Ok(()),
        }
    }
}

fn client<D: Dom>(w: &World<D>, steps: &[CStep], s: Arc<Shared>, me: usize) {
    ME.with(|m| *m.borrow_mut() = Some((s.clone(), me)));
    hook::set_switch(Some(on_hit));
    let body = std::panic::AssertUnwindSafe(|| {
        wait(&s, lock(&s), me);
        let own = (0..OWN).map(|_| (D::new_value(0), Bits::EMPTY)).collect();
        let mut c = Client { w, own, s: s.clone(), me, dig: 0x77 + me as u64, counts: vec![], oracle: 0 };
        let mut out = Ok(());
        for (i, st) in steps.iter().enumerate() {
            STEP.with(|x| x.set(i));
            point(true);
            out = c.step(st);
            if !matches!(st.op, COp::Write { .. } | COp::Fetch { .. } | COp::Look { .. }) { lock(&s).order.push(me as u8); }
            if out.is_err() { break; }
        }
        let mut k = lock(&s);
        k.digests[me] = c.dig;
        k.oracle += c.oracle;
        k.counts.extend(std::mem::take(&mut c.counts));
        if let Err(v) = out {
            if k.viol.is_none() { k.viol = Some(v); }
            k.abort = true;
        }
        drop(k);
    });
    let r = std::panic::catch_unwind(body);
    hook::set_switch(None);
    ME.with(|m| *m.borrow_mut() = None);
    let mut k = lock(&s);
    if r.is_err() && !k.abort {
        k.abort = true;
        if k.viol.is_none() {
            k.viol = Some(Viol { owners: C07, class: "panic/client".into(), msg: format!("client {me} died: {}", hook::last_panic()), step: 0 });
        }
    }
    k.st[me] = St::Done;
    for l in 0..k.owner.len() {
        if k.owner[l] == Some(me) { k.owner[l] = None; for st in &mut k.st { if *st == St::Blocked(l) { *st = St::Ready; } } }
    }
    // Once the run is over nothing decides any more: the others only unwind.
    k.cur = usize::MAX;
    if !k.abort { if let Some(n) = k.choose(None, true) { k.cur = n; } }
    k.progress += 1;
    drop(k);
    s.cv.notify_all();
}

fn build<D: Dom>(d: &D, ops: &[(bool, Iv)]) -> Result<(D::V, Bits), Viol> {
    let n = d.args();
    let (mut v, mut m) = (D::new_value(0), Bits::EMPTY);
    for (del, i) in ops {
        let (st, a, b) = (i.st % INTERVAL_STYLES, i.a as usize % n, i.b as usize % n);
        let im = d.iv_model(st, a, b);
        let (o, _) = hook::call(10_000_000, NO_ARM, || D::in_place(&mut v, if *del { 2 } else { 0 }, d.iv(st, a, b)));
        if !matches!(o, Out::Ok(())) {
            return Err(Viol { owners: C01, class: "setup".into(), msg: "building a shared value failed".into(), step: 0 });
        }
        m = if *del { m.sub(im) } else { m.or(im) };
    }
    let got: Vec<Repr> = match hook::call(10_000_000, NO_ARM, || D::list(&v)).0 { Out::Ok(l) => l.iter().map(|i| d.decode(i)).collect(), _ => vec![] };
    if got != d.expect_runs(&m) {
        return Err(Viol { owners: C01, class: "setup".into(), msg: format!("shared value is {got:?}"), step: 0 });
    }
    Ok((v, m))
}

pub struct ThreadOut { pub r: RunResult, pub trace: Vec<(u32, u8)>, pub order: Vec<u8>, pub void: Vec<(u8, u16)> }

fn go<D: Dom>(p: &ThreadPlan, prop: &str, st: &mut Stats) -> ThreadOut {
    elem::set_size(D::elements(p.n as usize));
    elem::reset_live();
    let mine = prop_bit(prop);
    let n = p.n as u128;
    let d = D::make(Univ::new(n - 1, &[(0, u32::from(p.n))]));
    let fail = |v: Viol| ThreadOut {
        r: RunResult { digest: 1, nontrivial: false, viol: (v.owners & mine != 0).then(|| v.clone()), foreign: (v.owners & mine == 0).then_some(v) },
        trace: vec![], order: vec![], void: vec![],
    };
    if let Some(t) = auto_traits() {
        let v = Viol { owners: C07, class: "auto-traits".into(), msg: t, step: 0 };
        return fail(v);
    }
    let mut shared = vec![];
    for s in &p.shared { match build(&d, s) { Ok((v, m)) => shared.push((Arc::new(v), m)), Err(v) => return fail(v) } }
    let mut locked = vec![];
    for s in &p.locked { match build(&d, s) { Ok(x) => locked.push(Mutex::new(x)), Err(v) => return fail(v) } }
    if shared.is_empty() { shared.push((Arc::new(D::new_value(0)), Bits::EMPTY)); }
    if locked.is_empty() { locked.push(Mutex::new((D::new_value(0), Bits::EMPTY))); }
    let w = Share(World { d, shared, locked });
    let nc = p.clients.len();
    let seed = match &p.sched { Sched::Walk { seed, .. } | Sched::Pct { seed, .. } => *seed, _ => 0 };
    let mut rng = Rng::new(seed);
    let mut prio: Vec<u64> = (0..nc as u64).map(|i| (1 << 40) + (rng.u64() >> 30 << 8) + i).collect();
    if prio.is_empty() { prio.push(1); }
    let changes = match &p.sched { Sched::Pct { d, len, .. } => (0..*d).map(|_| rng.below(*len as usize) as u32).collect(), _ => vec![] };
    let s = Arc::new(Shared {
        core: Mutex::new(Core {
            st: vec![St::Ready; nc], cur: usize::MAX, owner: vec![None; w.0.locked.len()], rng, sched: p.sched.clone(), prio, changes,
            decision: 0, trace: vec![], at: 0, progress: 0, abort: false, switches: 0, hash: 0, order: vec![], void: vec![], viol: None, oracle: 0,
            digests: vec![0; nc], counts: vec![], elem_ops: 0, calls: 0, stalls: 0, waits: 0,
        }),
        cv: Condvar::new(),
    });
    if nc > 0 { let mut c = lock(&s); if let Some(n) = c.choose(None, true) { c.cur = n; } }
    let mut hung = false;
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for (i, steps) in p.clients.iter().enumerate() {
            let (s2, w2) = (s.clone(), &w);
            hs.push(sc.spawn(move || { let w2 = w2; client::<D>(&w2.0, steps, s2, i) }));
        }
        // The only use of the wall clock: noticing that the one client allowed
        // to run is blocked, which it can only be on another one's behalf.
        let mut last = (0, Instant::now());
        loop {
            let c = lock(&s);
            if c.st.iter().all(|x| *x == St::Done) { break; }
            let pr = c.progress;
            let (c, _) = s.cv.wait_timeout(c, Duration::from_millis(500)).unwrap_or_else(|e| e.into_inner());
            drop(c);
            if pr != last.0 { last = (pr, Instant::now()); }
            else if last.1.elapsed() > Duration::from_secs(15) { hung = true; crate::stuck("client blocked or looping inside a library call while the others are parked"); }
        }
        for h in hs { let _ = h.join(); }
    });
    let _ = hung;
    let mut c = lock(&s);
    st.steps += c.order.len() as u64;
    st.calls += c.calls;
    st.elem_ops += c.elem_ops;
    st.oracle += c.oracle;
    st.add("fault: client stalled inside a call", c.stalls);
    st.add("probe: waits for a lock", c.waits);
    st.add("probe: preemptions inside a call or between steps", c.switches);
    for (k, n) in std::mem::take(&mut c.counts) { st.add(&k, n); }
    let mut digest = c.hash;
    for x in &c.digests { digest = mix(digest ^ x); }
    digest = mix(digest ^ u64::from(c.decision));
    st.states.insert(c.hash);
    let nontrivial = c.switches > 0 && c.oracle > 0;
    let (mut viol, mut foreign) = (None, None);
    if let Some(v) = c.viol.take() { if v.owners & mine != 0 { viol = Some(v); } else { foreign = Some(v); } }
    let (trace, order, void) = (std::mem::take(&mut c.trace), std::mem::take(&mut c.order), std::mem::take(&mut c.void));
    drop(c);
    ThreadOut { r: RunResult { viol, foreign, digest, nontrivial }, trace, order, void }
}

pub fn run(p: &ThreadPlan, prop: &str, st: &mut Stats) -> ThreadOut {
    if p.tree { go::<Tree<El>>(p, prop, st) } else { go::<Sel<El>>(p, prop, st) }
}

////////////////////////////////////////////////////////////////////////////////
// Send and Sync
////////////////////////////////////////////////////////////////////////////////

struct Probe<T>(std::marker::PhantomData<T>);
#[allow(dead_code)]
trait NoSend { fn send(&self) -> bool { false } }
#[allow(dead_code)]
trait NoSync { fn sync(&self) -> bool { false } }
impl<T> NoSend for &Probe<T> {}
impl<T> NoSync for &Probe<T> {}
impl<T: Send> Probe<T> { fn send(&self) -> bool { true } }
impl<T: Sync> Probe<T> { fn sync(&self) -> bool { true } }

fn auto_traits() -> Option<String> {
    use normalize_interval::{bound::Bound, interval::Interval, raw_interval::RawInterval, selection::Selection, tine::Tine, tine_tree::TineTree};
    macro_rules! probe { ($($t:ty),*) => { $(
        let p = Probe::<$t>(std::marker::PhantomData);
        let (a, b) = ((&p).send(), (&p).sync());
        if !a || !b {
            return Some(format!("{} is {}", stringify!($t), match (a, b) { (false, false) => "neither Send nor Sync", (false, _) => "not Send", _ => "not Sync" }));
        }
    )* } }
    probe!(Selection<El>, Interval<El>, TineTree<El>, RawInterval<El>, Bound<El>, Tine<El>, Selection<i32>, Interval<u64>, TineTree<i8>);
    // Elements that may be moved but not shared.
    type C = std::cell::Cell<i32>;
    macro_rules! moved { ($($t:ty),*) => { $(
        let p = Probe::<$t>(std::marker::PhantomData);
        if !(&p).send() { return Some(format!("{} is not Send", stringify!($t))); }
    )* } }
    moved!(Selection<C>, Interval<C>, TineTree<C>, RawInterval<C>, Bound<C>, Tine<C>, <TineTree<C> as IntoIterator>::IntoIter);
    // The iterators, by the calls that make them.
    fn of<T>(_: &T) -> Probe<T> { Probe(std::marker::PhantomData) }
    let iv: Interval<El> = Interval::full();
    let sel: Selection<El> = Selection::full();
    let tree: TineTree<El> = TineTree::new();
    macro_rules! made { ($($e:expr),*) => { $(
        let x = $e;
        let p = of(&x);
        if !(&p).send() || !(&p).sync() { return Some(format!("the iterator made by {} is not Send and Sync", stringify!($e))); }
    )* } }
    made!(sel.iter(), sel.interval_iter(), sel.clone().into_iter(), sel.clone().into_interval_iter(), iv.iter(), tree.interval_iter(), tree.clone().into_iter());
    None
}

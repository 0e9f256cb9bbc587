//! Minimises a failing plan: fewer steps, no needless faults, smaller
//! arguments, fewer preemptions, as long as it fails in the same way.

use crate::machine::{Stats, Viol};
use crate::plan::{Fault, Kind, Op, Plan, Stream};
use crate::threads::Sched;
use crate::{explicit, verdict, Full};
use std::time::{Duration, Instant};

struct S { best: Plan, full: Full, class: String, until: Instant, tried: u64 }

impl S {
    fn attempt(&mut self, q: Plan) -> bool {
        if q == self.best || Instant::now() > self.until { return false; }
        self.tried += 1;
        let f = verdict(&q, &mut Stats::default());
        match &f.r.viol {
            Some(v) if v.class == self.class => {
                // Keep the schedule explicit; it may have moved.
                let e = explicit(&q, &f);
                let g = if e == q { None } else { Some(verdict(&e, &mut Stats::default())) };
                match g {
                    None => { self.best = q; self.full = f; true }
                    Some(g) if g.r.viol.as_ref().is_some_and(|v| v.class == self.class) => { self.best = e; self.full = g; true }
                    _ => false,
                }
            }
            _ => false,
        }
    }
    /// Removes chunks of a list, large ones first.
    fn ddmin(&mut self, len: impl Fn(&Plan) -> usize, cut: impl Fn(&mut Plan, usize, usize)) {
        let mut chunk = len(&self.best).div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < len(&self.best) {
                let mut q = self.best.clone();
                let j = (i + chunk).min(len(&self.best));
                cut(&mut q, i, j);
                if !self.attempt(q) { i += chunk; }
                if Instant::now() > self.until { return; }
            }
            if chunk == 1 { break; }
            chunk = chunk.div_ceil(2);
        }
    }
    fn each(&mut self, alts: impl Fn(&Plan) -> Vec<Plan>) {
        loop {
            let mut any = false;
            for q in alts(&self.best.clone()) {
                if self.attempt(q) { any = true; break; }
                if Instant::now() > self.until { return; }
            }
            if !any { break; }
        }
    }
}

fn simpler_stream(s: &Stream) -> Vec<Stream> {
    let mut v = Vec::new();
    let n = s.items.len();
    let mut chunk = n / 2;
    while chunk > 1 {
        for i in (0..n).step_by(chunk) {
            let mut t = s.clone();
            let j = (i + chunk).min(n);
            t.items.drain(i..j);
            let at = t.at as usize;
            t.at = (at - at.min(j).saturating_sub(i)) as u16;
            v.push(t);
        }
        chunk /= 2;
    }
    for i in 0..n { let mut t = s.clone(); t.items.remove(i); if t.at as usize > i { t.at -= 1; } v.push(t); }
    if s.hint != 0 { let mut t = s.clone(); t.hint = 0; v.push(t); }
    if s.nest { let mut t = s.clone(); t.nest = false; v.push(t); }
    if s.end != 0 { let mut t = s.clone(); t.end = 0; v.push(t); }
    v
}

pub fn shrink(p: Plan, secs: u64) -> (Plan, Option<Viol>, u64) {
    let f = verdict(&p, &mut Stats::default());
    let Some(v) = f.r.viol.clone() else { return (p, None, 1) };
    let p = explicit(&p, &f);
    let mut s = S { best: p, full: f, class: v.class, until: Instant::now() + Duration::from_secs(secs), tried: 1 };
    for _ in 0..2 {
        match &s.best.kind {
            Kind::Machine(_) => machine(&mut s),
            Kind::Text(_) => text(&mut s),
            Kind::Threads(_) => threads(&mut s),
        }
    }
    let v = s.full.r.viol.clone();
    (s.best, v, s.tried)
}

macro_rules! part {
    ($p:expr, $k:ident) => { match &mut $p.kind { Kind::$k(m) => m, _ => unreachable!() } };
}
macro_rules! view {
    ($p:expr, $k:ident) => { match &$p.kind { Kind::$k(m) => m, _ => unreachable!() } };
}

fn machine(s: &mut S) {
    // Nothing after the failing step matters.
    let at = s.full.r.viol.as_ref().map_or(0, |v| v.step);
    let mut q = s.best.clone();
    part!(q, Machine).steps.truncate(at + 1);
    s.attempt(q);
    s.ddmin(|p| view!(p, Machine).steps.len(), |p, i, j| { part!(p, Machine).steps.drain(i..j); });
    s.each(|p| {
        let m = view!(p, Machine);
        let mut v = Vec::new();
        for i in 0..m.steps.len() {
            let mut alt = |f: &dyn Fn(&mut crate::plan::Step)| {
                let mut q = p.clone();
                f(&mut part!(q, Machine).steps[i]);
                if q != *p { v.push(q); }
            };
            alt(&|s| s.f = Fault::default());
            alt(&|s| s.c = 0);
            let smaller = |x: u16| [x / 2, x.saturating_sub(1)];
            match &m.steps[i].op {
                Op::InPlace { .. } | Op::Make { .. } | Op::IvMake { .. } => {
                    for k in 0..2 {
                        alt(&|s| if let Op::InPlace { iv, .. } | Op::Make { iv, .. } | Op::IvMake { iv, .. } = &mut s.op { if iv.st < 100 { iv.a = smaller(iv.a)[k]; } });
                        alt(&|s| if let Op::InPlace { iv, .. } | Op::Make { iv, .. } | Op::IvMake { iv, .. } = &mut s.op { iv.b = smaller(iv.b)[k]; });
                    }
                    for st in [0u8, 12] {
                        alt(&|s| if let Op::InPlace { iv, .. } | Op::Make { iv, .. } | Op::IvMake { iv, .. } = &mut s.op { if iv.st > st { iv.st = st; } });
                    }
                }
                Op::Extend { s: st, .. } | Op::Collect { s: st, .. } | Op::Bulk { s: st, .. } => {
                    for t in simpler_stream(st) {
                        alt(&|s| if let Op::Extend { s: x, .. } | Op::Collect { s: x, .. } | Op::Bulk { s: x, .. } = &mut s.op { *x = t.clone(); });
                    }
                }
                Op::LoadBad { dmg, .. } => for k in 0..dmg.len() {
                    alt(&|s| if let Op::LoadBad { dmg, .. } = &mut s.op { if dmg.len() > 1 { dmg.remove(k); } });
                },
                Op::Ints { ops, .. } => for k in 0..ops.len() {
                    alt(&|s| if let Op::Ints { ops, .. } = &mut s.op { if ops.len() > 1 { ops.remove(k); } });
                },
                Op::Save { .. } => alt(&|s| if let Op::Save { df, .. } = &mut s.op { *df = Default::default(); }),
                Op::Load { .. } => alt(&|s| if let Op::Load { df, .. } = &mut s.op { *df = Default::default(); }),
                _ => {}
            }
        }
        for n in [1, m.n / 2, m.n.saturating_sub(1)] {
            if n > 0 && n < m.n { let mut q = p.clone(); part!(q, Machine).n = n; v.push(q); }
        }
        if m.regs > 1 { let mut q = p.clone(); part!(q, Machine).regs -= 1; v.push(q); }
        v
    });
}

fn text(s: &mut S) {
    let at = s.full.r.viol.as_ref().map_or(0, |v| v.step);
    let mut q = s.best.clone();
    part!(q, Text).steps.truncate(at + 1);
    s.attempt(q);
    s.ddmin(|p| view!(p, Text).steps.len(), |p, i, j| { part!(p, Text).steps.drain(i..j); });
    s.each(|p| {
        use crate::text::TOp;
        let m = view!(p, Text);
        let mut v = Vec::new();
        for i in 0..m.steps.len() {
            match &m.steps[i] {
                TOp::Append { f, .. } if *f != Default::default() => {
                    let mut q = p.clone();
                    if let TOp::Append { f, .. } = &mut part!(q, Text).steps[i] { *f = Default::default(); }
                    v.push(q);
                    let mut q = p.clone();
                    if let TOp::Append { f, .. } = &mut part!(q, Text).steps[i] { f.chunk = 0; f.eintr = 0; }
                    v.push(q);
                }
                TOp::Damaged { e } | TOp::Edited { e, .. } if e.len() > 1 => for k in 0..e.len() {
                    let mut q = p.clone();
                    if let TOp::Damaged { e } | TOp::Edited { e, .. } = &mut part!(q, Text).steps[i] { e.remove(k); }
                    v.push(q);
                },
                TOp::Glued { parts, .. } if parts.len() > 1 => for k in 0..parts.len() {
                    let mut q = p.clone();
                    if let TOp::Glued { parts, .. } = &mut part!(q, Text).steps[i] { parts.remove(k); }
                    v.push(q);
                },
                _ => {}
            }
        }
        v
    });
}

fn threads(s: &mut S) {
    // A failing concurrent run is judged against a fresh process each time,
    // so clients and steps go first, then preemptions.
    s.each(|p| {
        let m = view!(p, Threads);
        let mut v = Vec::new();
        for c in 0..m.clients.len() {
            if !m.clients[c].is_empty() { let mut q = p.clone(); part!(q, Threads).clients[c].clear(); v.push(q); }
        }
        for c in 0..m.clients.len() {
            for i in (0..m.clients[c].len()).rev() {
                let mut q = p.clone();
                part!(q, Threads).clients[c].remove(i);
                v.push(q);
            }
            for i in 0..m.clients[c].len() {
                if m.clients[c][i].f != Fault::default() || m.clients[c][i].stall {
                    let mut q = p.clone();
                    part!(q, Threads).clients[c][i].f = Fault::default();
                    part!(q, Threads).clients[c][i].stall = false;
                    v.push(q);
                }
            }
        }
        v
    });
    s.ddmin(
        |p| match &view!(p, Threads).sched { Sched::Trace(t) => t.len(), _ => 0 },
        |p, i, j| if let Sched::Trace(t) = &mut part!(p, Threads).sched { t.drain(i..j); },
    );
    s.each(|p| {
        let m = view!(p, Threads);
        let mut v = Vec::new();
        for k in 0..m.shared.len() { for i in 0..m.shared[k].len() { let mut q = p.clone(); part!(q, Threads).shared[k].remove(i); v.push(q); } }
        for k in 0..m.locked.len() { for i in 0..m.locked[k].len() { let mut q = p.clone(); part!(q, Threads).locked[k].remove(i); v.push(q); } }
        v
    });
}

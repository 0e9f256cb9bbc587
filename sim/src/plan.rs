//! A run: the system's configuration and the steps of its clients, with the
//! faults injected into them. Generated from one PRNG, stored as JSON.

use crate::disk::DiskFault;
use crate::hook;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Iv { pub st: u8, pub a: u16, pub b: u16 }

/// Style number that takes the interval from a register instead.
pub const IV_REG: u8 = 100;

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Stream {
    pub items: Vec<Iv>,
    /// Points instead of intervals (cell `a` of each item).
    pub pts: bool,
    /// 0 plain end, 1 dies before item `at`, 2 reports its end before item
    /// `at` and resumes when asked again.
    pub end: u8,
    pub at: u16,
    /// 0 truthful, 1 claims nothing, 2 claims too many, 3 claims too few.
    pub hint: u8,
    /// The source itself uses the library between items.
    pub nest: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Default)]
pub struct Fault {
    /// 0 none, 1 element code unwinds, 2 element code re-enters the library.
    pub kind: u8,
    pub mask: u16,
    /// Where inside the operation, as a fraction of its element operations.
    pub at: u16,
    pub retry: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Damage { pub k: u8, pub a: u16, pub b: u16 }

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Op {
    New { r: u8, how: u8 },
    Make { r: u8, iv: Iv, how: u8 },
    InPlace { r: u8, k: u8, iv: Iv },
    Derive { d: u8, k: u8, x: u8, y: u8 },
    Extend { r: u8, s: Stream },
    Collect { d: u8, s: Stream, how: u8 },
    Query { x: u8, y: u8 },
    Twin { x: u8, how: u8 },
    IvMake { i: u8, iv: Iv },
    IvOp { d: u8, k: u8, i: u8, j: u8, n: u8 },
    IvTake { i: u8, r: u8, n: u8, how: u8 },
    Open { s: u8, k: u8, r: u8 },
    Walk { s: u8, back: bool, how: u8, n: u8 },
    Drain { s: u8, how: u8 },
    Close { s: u8 },
    Save { d: u8, fmt: u8, iv: bool, r: u8, df: DiskFault, retry: bool },
    Load { r: u8, d: u8, df: DiskFault, how: u8 },
    Crash,
    LoadBad { r: u8, d: u8, fmt: u8, src: u8, dmg: Vec<Damage> },
    Bulk { k: u8, s: Stream },
    /// A short history over one of the built-in integer types, or of a tree
    /// over another ordinary type.
    Ints { t: u8, ops: Vec<(u8, u16, u16)> },
}

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Step { pub c: u8, pub op: Op, pub f: Fault }

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub run: u64,
    /// "checked" or "release".
    pub build: String,
    pub kind: Kind,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Kind {
    Machine(MachinePlan),
    Threads(crate::threads::ThreadPlan),
    Text(crate::text::TextPlan),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct MachinePlan {
    pub tree: bool,
    pub elem: String,
    /// Universe size of `El`.
    pub n: u32,
    /// Individually modelled elements of the integer types.
    pub win: Vec<(String, u32)>,
    pub regs: u8,
    pub steps: Vec<Step>,
}

pub const INTERVAL_STYLE_OF_INTEREST: [u8; 12] = [0, 0, 1, 2, 3, 6, 7, 8, 9, 12, 12, 12];

pub const IREGS: usize = 3;
pub const SLOTS: usize = 4;
pub const DOCS: usize = 3;

/// One in this many histories over the integer types is of many intervals.
const HUGE: usize = 200;
const GIANT: usize = 600;

/// Relative frequency of each kind of step.
#[derive(Clone)]
pub struct Mix {
    pub new: u32, pub make: u32, pub inplace: u32, pub derive: u32, pub extend: u32, pub collect: u32,
    pub query: u32, pub twin: u32, pub ivmake: u32, pub ivop: u32, pub ivtake: u32,
    pub open: u32, pub walk: u32, pub drain: u32, pub close: u32,
    pub save: u32, pub load: u32, pub crash: u32, pub loadbad: u32, pub bulk: u32, pub ints: u32,
    /// Percentage of steps with an element fault, of streams that misbehave,
    /// of saves and loads that meet a disk fault.
    pub fault: u32, pub stream_fault: u32, pub disk_fault: u32,
    /// Percentage of tree runs, of `El` runs.
    pub tree: u32, pub el: u32,
    pub steps: (usize, usize),
}

pub fn mix_for(prop: &str) -> Mix {
    let base = Mix {
        new: 1, make: 6, inplace: 40, derive: 10, extend: 4, collect: 4, query: 4, twin: 2,
        ivmake: 4, ivop: 4, ivtake: 4, open: 2, walk: 3, drain: 1, close: 1,
        save: 1, load: 1, crash: 1, loadbad: 0, bulk: 0, ints: 1,
        fault: 6, stream_fault: 25, disk_fault: 30, tree: 0, el: 60, steps: (6, 60),
    };
    match prop {
        "C01" => Mix { derive: 6, ..base },
        "C02" => Mix { derive: 30, inplace: 30, query: 10, ivop: 16, ivtake: 8, ivmake: 8, ..base },
        "C03" => Mix { twin: 14, derive: 20, query: 10, ivop: 8, save: 2, load: 2, ..base },
        "C04" => Mix { open: 14, walk: 60, drain: 8, close: 3, inplace: 24, derive: 8, fault: 3, tree: 25, ..base },
        "C05" => Mix { inplace: 60, fault: 60, tree: 40, el: 100, save: 0, load: 0, ..base },
        "C06" => Mix { extend: 24, collect: 24, bulk: 14, inplace: 16, stream_fault: 70, tree: 25, ..base },
        "C08" => Mix { save: 24, load: 24, crash: 6, disk_fault: 55, tree: 30, ..base },
        "C09" => Mix { loadbad: 40, save: 4, load: 4, inplace: 24, derive: 14, open: 6, walk: 10, drain: 6, tree: 35, ..base },
        "C12" => Mix { fault: 30, open: 10, walk: 14, drain: 6, extend: 10, collect: 8, loadbad: 8, save: 4, load: 4, bulk: 3, tree: 30, el: 100, ..base },
        "C13" => Mix { fault: 15, open: 8, walk: 10, drain: 8, derive: 20, bulk: 4, ivop: 8, loadbad: 2, tree: 30, el: 100, steps: (6, 90), ..base },
        "C14" => Mix { tree: 100, derive: 24, query: 10, twin: 6, inplace: 50, ..base },
        _ => base,
    }
}

struct Gen<'a> { tree: bool, large: bool, r: &'a mut Rng, args: usize, recent: Vec<u16>, regs: u8, mix: Mix, short: bool, fault_on: bool, stream_on: bool, disk_on: bool }

impl Gen<'_> {
    fn arg(&mut self) -> u16 {
        let n = self.args;
        let x = if !self.recent.is_empty() && self.r.chance(55, 100) {
            let k = self.r.below(self.recent.len());
            let base = self.recent[k] as i64;
            (base + *self.r.pick(&[-2i64, -1, -1, 0, 0, 0, 1, 1, 2])).clamp(0, n as i64 - 1) as u16
        } else if self.r.chance(10, 100) {
            if self.r.chance(1, 2) { 0 } else { n as u16 - 1 }
        } else { self.r.below(n) as u16 };
        self.recent.push(x);
        if self.recent.len() > 14 { self.recent.remove(0); }
        x
    }
    fn iv(&mut self) -> Iv {
        if self.r.chance(14, 100) {
            return Iv { st: IV_REG, a: self.r.below(IREGS) as u16, b: 0 };
        }
        let st = match self.r.below(100) {
            0..=29 => 12,
            30..=49 => 0,
            50..=57 => 1,
            58.. if self.large && self.r.chance(4, 5) => 12,
            58..=63 => 2,
            64..=69 => 3,
            70..=72 => 13,
            73 => 10,
            74 => 11,
            75 => 4,
            76 => 5,
            77..=88 => self.r.range(6, 9) as u8,
            _ => self.r.range(13, 17) as u8,
        };
        let (a, mut b) = (self.arg(), self.arg());
        if self.short && self.r.chance(if self.large { 90 } else { 70 }, 100) {
            let span = if self.large { 2 } else { 4 };
            b = (u32::from(a) + self.r.below(span) as u32).min(self.args as u32 - 1) as u16;
        }
        // Mostly ordered, sometimes reversed.
        if a <= b || self.r.chance(8, 100) { Iv { st, a, b } } else { Iv { st, a: b, b: a } }
    }
    fn fault(&mut self) -> Fault {
        if !self.fault_on || !self.r.chance(self.mix.fault as usize, 100) { return Fault::default(); }
        let kind = if self.r.chance(12, 100) { 2 } else { 1 };
        let mask = match self.r.below(8) {
            0 => hook::CMP,
            1 => hook::CLONE,
            2 => hook::PRED | hook::SUCC,
            3 => hook::EQ | hook::CMP,
            _ => hook::ELEMENT,
        };
        Fault { kind, mask, at: self.r.u64() as u16, retry: self.r.chance(1, 2) }
    }
    fn stream(&mut self) -> Stream {
        let len = if self.large && self.r.chance(1, 3) { self.r.range(40, 160) } else { match self.r.below(10) { 0 => 0, 1..=6 => self.r.range(1, 5), 7 | 8 => self.r.range(3, 14), _ => self.r.range(10, 40) } };
        let items: Vec<Iv> = if len >= 40 {
            // Many separate intervals.
            (0..len).map(|_| { let a = self.r.below(self.args) as u16; Iv { st: if self.r.chance(3, 4) { 12 } else { 0 }, a, b: (a + self.r.below(2) as u16).min(self.args as u16 - 1) } }).collect()
        } else { (0..len).map(|_| self.iv()).collect() };
        let bad = self.stream_on && self.r.chance(self.mix.stream_fault as usize, 100);
        Stream {
            pts: self.r.chance(1, 3),
            end: if bad { self.r.range(0, 2) as u8 } else { 0 },
            at: self.r.below(len + 1) as u16,
            hint: if bad { self.r.below(4) as u8 } else { 0 },
            nest: bad && self.r.chance(1, 4),
            items,
        }
    }
    fn disk(&mut self, save: bool) -> DiskFault {
        if !self.disk_on || !self.r.chance(self.mix.disk_fault as usize, 100) { return DiskFault::default(); }
        let kind = if save {
            *self.r.pick(&[0u8, 1, 1, 2, 2, 3, 4, 4, 5, 6, 7])
        } else { *self.r.pick(&[0u8, 0, 1, 6, 7]) };
        DiskFault {
            kind, at: self.r.u64() as u16,
            chunk: *self.r.pick(&[0u8, 0, 1, 2, 3, 7]),
            eintr: *self.r.pick(&[0u8, 0, 2, 3, 5]),
        }
    }
    fn reg(&mut self) -> u8 { self.r.below(self.regs as usize) as u8 }
    fn op(&mut self, i: usize) -> Op {
        let m = &self.mix;
        let ws = [m.new, m.make, m.inplace, m.derive, m.extend, m.collect, m.query, m.twin, m.ivmake, m.ivop,
            m.ivtake, m.open, m.walk, m.drain, m.close, m.save, m.load, m.crash, m.loadbad, m.bulk, if self.short || self.args < 10 { m.ints } else { 0 }];
        let k = if i == 0 { if self.large { 5 } else { 1 } } else { self.r.weighted(&ws) };
        match k {
            0 => Op::New { r: self.reg(), how: self.r.below(12) as u8 },
            1 => Op::Make { r: self.reg(), iv: self.iv(), how: self.r.below(6) as u8 },
            2 => Op::InPlace { r: self.reg(), k: *self.r.pick(&[0u8, 0, 0, 0, 0, 1, 2, 2, 2]), iv: self.iv() },
            3 => Op::Derive { d: self.reg(), k: *self.r.pick(&[0u8, 0, 1, 1, 2, 2, 3, 3, 4, 5]), x: self.reg(), y: self.reg() },
            4 => Op::Extend { r: self.reg(), s: self.stream() },
            5 => Op::Collect { d: self.reg(), s: self.stream(), how: self.r.below(4) as u8 },
            6 => Op::Query { x: self.reg(), y: self.reg() },
            7 => Op::Twin { x: self.reg(), how: self.r.below(8) as u8 },
            8 => Op::IvMake { i: self.r.below(IREGS) as u8, iv: self.iv() },
            9 => Op::IvOp { d: self.r.below(IREGS) as u8, k: self.r.below(7) as u8, i: self.r.below(IREGS) as u8, j: self.r.below(IREGS) as u8, n: self.r.below(3) as u8 },
            10 => Op::IvTake { i: self.r.below(IREGS) as u8, r: self.reg(), n: self.r.below(6) as u8, how: self.r.below(4) as u8 },
            11 => Op::Open { s: self.r.below(SLOTS) as u8, k: self.r.below(8) as u8, r: self.reg() },
            12 => Op::Walk { s: self.r.below(SLOTS) as u8, back: self.r.chance(1, 2), how: self.r.below(8) as u8, n: if self.r.chance(1, 9) { self.r.below(90) } else { self.r.below(4) } as u8 },
            13 => Op::Drain { s: self.r.below(SLOTS) as u8, how: self.r.below(usize::from(crate::dom::DRAINS)) as u8 },
            14 => Op::Close { s: self.r.below(SLOTS) as u8 },
            15 => Op::Save { d: self.r.below(DOCS) as u8, fmt: self.r.below(3) as u8, iv: self.r.chance(1, 5), r: self.reg(), df: self.disk(true), retry: self.r.chance(2, 3) },
            16 => Op::Load { r: self.reg(), d: self.r.below(DOCS) as u8, df: self.disk(false), how: self.r.below(3) as u8 },
            17 => Op::Crash,
            18 => {
                let n = self.r.range(1, 4);
                let dmg = (0..n).map(|_| Damage { k: self.r.below(16) as u8, a: self.r.u64() as u16, b: self.r.u64() as u16 }).collect();
                Op::LoadBad { r: self.reg(), d: self.reg(), fmt: self.r.below(4) as u8, src: self.r.below(4) as u8, dmg }
            }
            20 => {
                // Now and then, hundreds of intervals.
                let often = if self.mix.loadbad >= 40 { 6 } else if self.tree { 2 } else { 1 };
                let huge = self.r.chance(1, HUGE / often);
                let ops = (0..self.r.range(2, 9)).map(|_| {
                    let k = if huge && self.r.chance(3, 4) { crate::ints::BULK + self.r.below(16) as u8 } else { self.r.below(usize::from(crate::ints::BULK)) as u8 };
                    (k, self.r.u64() as u16, self.r.u64() as u16)
                }).collect();
                if self.mix.loadbad < 40 && self.r.chance(1, if self.tree { GIANT } else { GIANT * 30 }) {
                    return Op::Ints { t: crate::ints::KINDS + u8::from(!self.tree), ops: vec![(self.r.u64() as u8, self.r.u64() as u16, self.r.u64() as u16)] };
                }
                let t = if self.tree { 12 + self.r.below(usize::from(crate::ints::KINDS) - 12) } else { self.r.below(12) };
                Op::Ints { t: t as u8, ops }
            }
            _ => Op::Bulk { k: self.r.below(3) as u8, s: self.stream() },
        }
    }
}

pub fn gen_machine(prop: &str, r: &mut Rng) -> MachinePlan {
    let mut mix = mix_for(prop);
    let tree = r.chance(mix.tree as usize, 100);
    if !matches!(prop, "C01" | "C02" | "C03" | "C04" | "C06" | "C08" | "C09" | "C13" | "C14") { mix.ints = 0; }
    // Swarm: per run, some kinds of step and fault are left out entirely.
    for w in [&mut mix.new, &mut mix.extend, &mut mix.collect, &mut mix.query, &mut mix.ivop,
        &mut mix.save, &mut mix.load, &mut mix.crash, &mut mix.derive] {
        if prop_core(prop).is_none() && r.chance(1, 5) { *w = 0; }
    }
    if r.chance(1, 6) { mix.inplace *= 3; }
    // Now and then, values of many intervals.
    let large = r.chance(if prop == "C13" { 12 } else { 7 }, 100);
    let el = tree || r.chance(mix.el as usize, 100);
    let (elem, n, win) = if el {
        let n = *r.pick(&[1u32, 2, 2, 3, 3, 4, 4, 5, 6, 6, 8, 8, 12, 20, 40]);
        let n = if tree { (n + 1).min(40) } else { n };
        let n = if large { (if tree { r.range(50, 120) } else { r.range(80, 250) }) as u32 } else { n };
        if !tree && !large && r.chance(if prop == "C13" { 40 } else { 12 }, 100) {
            let n = *r.pick(&[300u32, 5_000, 1_000_000, 1 << 31]);
            ("El".to_string(), n, windows(r, u128::from(n) - 1))
        } else { ("El".to_string(), n, vec![]) }
    } else {
        let t = if large { *r.pick(&["u8", "i8"]) } else { *r.pick(&["u8", "i8", "i32", "i32", "i128", "i128"]) };
        let max: u128 = match t { "u8" | "i8" => 255, "i32" => u128::from(u32::MAX), _ => u128::MAX };
        let win = if large { vec![("0".into(), 256)] } else { windows(r, max) };
        (t.to_string(), 4, win)
    };
    let args = {
        // An upper estimate is enough here: arguments are reduced on use.
        let ws: u32 = win.iter().map(|w| w.1).sum();
        if win.is_empty() { n as usize } else { (ws as usize + win.len() + 1).min(256) }
    };
    let regs = r.range(1, 4) as u8;
    let (lo, hi) = mix.steps;
    let len = if large { r.range(lo, hi.min(30)) } else if r.chance(1, 12) { hi * 3 } else { r.range(lo, hi) };
    let clients = r.range(1, 4);
    let short = large || r.chance(1, 2);
    let fault_on = el && r.chance(if mix.fault >= 30 { 9 } else { 5 }, 10);
    let stream_on = r.chance(7, 10);
    let disk_on = r.chance(7, 10);
    let mut g = Gen { tree, large, args, recent: vec![], regs, mix, short, fault_on, stream_on, disk_on, r };
    let steps = (0..len)
        .map(|i| {
            let op = g.op(i);
            let f = g.fault();
            Step { c: g.r.below(clients) as u8, op, f }
        })
        .collect();
    MachinePlan { tree, elem, n, win, regs, steps }
}

/// Individually modelled elements of a type too large to model as a whole.
fn windows(r: &mut Rng, max: u128) -> Vec<(String, u32)> {
    let mut win: Vec<(String, u32)> = Vec::new();
    let mut add = |s: u128, l: u32| win.push((s.to_string(), l));
    if max == 255 && r.chance(2, 3) { add(0, 256); return win; }
    add(0, r.range(1, 4) as u32);
    let l = r.range(1, 4) as u32;
    add(max - u128::from(l) + 1, l);
    for _ in 0..r.range(0, 3) {
        let at = match r.below(4) {
            0 => max / 2,
            1 => max / 2 - 3,
            2 => (1u128 << r.below(128)).min(max) - 1,
            _ => (u128::from(r.u64()) << 64 | u128::from(r.u64())) % max,
        };
        add(at, r.range(1, 9) as u32);
    }
    win
}

/// Properties whose mix must not lose a kind of step.
fn prop_core(prop: &str) -> Option<()> {
    match prop { "C06" | "C08" | "C09" => Some(()), _ => None }
}

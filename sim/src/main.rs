//! `sim run`: simulates a range of runs. `sim replay`: one plan from a file.
//! `sim shrink`: minimises a failing plan.

mod bits;
mod dense;
mod disk;
mod dom;
mod elem;
mod giant;
mod hook;
mod ints;
mod machine;
mod plan;
mod rng;
mod shrink;
mod text;
mod threads;

use machine::{RunResult, Stats, Viol};
use plan::{Kind, Plan};
use rng::Rng;
use std::io::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering as AO};

pub const BUILD: &str = if cfg!(debug_assertions) { "checked" } else { "release" };

static TRACE: AtomicBool = AtomicBool::new(false);
static RUN: AtomicU64 = AtomicU64::new(0);

/// With `--trace`, notes each library call before it is made, so that a call
/// that never returns or takes the process down can be named.
pub fn trace(owners: u32, name: &str) {
    if TRACE.load(AO::Relaxed) {
        let _ = writeln!(std::io::stderr(), "@ {} {owners} {name}", RUN.load(AO::Relaxed));
    }
}

pub fn at_step(i: usize) {
    if TRACE.load(AO::Relaxed) { let _ = writeln!(std::io::stderr(), "# {i}"); }
}

/// The run cannot go on: leave the process, as a hang would be ended from outside.
pub fn stuck(why: &str) -> ! {
    let _ = writeln!(std::io::stderr(), "@ {} {} stuck: {why}", RUN.load(AO::Relaxed), machine::C07);
    std::process::exit(77)
}

pub fn generate(prop: &str, seed: u64, run: u64) -> Plan {
    let mut r = Rng::for_run(prop, seed, run);
    let kind = match prop {
        "C07" => Kind::Threads(threads::gen_threads(&mut r)),
        "C10" | "C11" => Kind::Text(text::gen_text(prop, &mut r)),
        _ => Kind::Machine(plan::gen_machine(prop, &mut r)),
    };
    Plan { prop: prop.into(), seed, run, build: BUILD.into(), kind }
}

pub struct Full { pub r: RunResult, pub trace: Vec<(u32, u8)>, pub order: Vec<u8>, pub void: Vec<(u8, u16)> }

pub fn execute(p: &Plan, st: &mut Stats) -> Full {
    match &p.kind {
        Kind::Machine(m) => Full { r: machine::run(m, &p.prop, st), trace: vec![], order: vec![], void: vec![] },
        Kind::Text(t) => Full { r: text::run(t, &p.prop, st), trace: vec![], order: vec![], void: vec![] },
        Kind::Threads(t) => {
            let o = threads::run(t, &p.prop, st);
            Full { r: o.r, trace: o.trace, order: o.order, void: o.void }
        }
    }
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}
fn num(args: &[String], k: &str, d: u64) -> u64 { arg(args, k).and_then(|s| s.parse().ok()).unwrap_or(d) }

fn show(v: &Option<Viol>) -> serde_json::Value {
    v.as_ref().map_or(serde_json::Value::Null, |v| serde_json::json!({ "class": v.class, "msg": v.msg, "step": v.step, "owners": v.owners }))
}

/// A failing concurrent run, once more one client at a time and without
/// faults, in a fresh process: what fails there too is no matter of concurrency.
fn alone_fails(p: &Plan, f: &Full) -> bool {
    let mut q = p.clone();
    let Kind::Threads(t) = &mut q.kind else { return false };
    t.sched = threads::Sched::Serial(f.order.clone());
    for (c, i) in &f.void { t.clients[*c as usize][*i as usize].op = threads::COp::Nothing; }
    let f = std::env::temp_dir().join(format!("sim-serial-{}-{}.json", std::process::id(), p.run));
    if std::fs::write(&f, serde_json::to_vec(&q).unwrap()).is_err() { return false; }
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&f).output();
    let _ = std::fs::remove_file(&f);
    match out {
        Ok(o) => {
            let v: serde_json::Value = serde_json::from_slice(&o.stdout).unwrap_or_default();
            // Only a plain wrong result: a type that is not Send is wrong alone as well.
            v["viol"]["class"].as_str().is_some_and(|c| c != "auto-traits")
        }
        Err(_) => false,
    }
}

/// The verdict on one plan, with foreign failures of concurrent runs set aside.
pub fn verdict(p: &Plan, st: &mut Stats) -> Full {
    let mut f = execute(p, st);
    if let Kind::Threads(t) = &p.kind {
        if let Some(v) = f.r.viol.clone() {
            if !matches!(t.sched, threads::Sched::Serial(_)) && v.class != "auto-traits" && alone_fails(p, &f) {
                f.r.foreign = f.r.viol.take();
            }
        }
    }
    f
}

/// The plan with its schedule written out.
pub fn explicit(p: &Plan, f: &Full) -> Plan {
    let mut q = p.clone();
    if let Kind::Threads(t) = &mut q.kind {
        if !matches!(t.sched, threads::Sched::Serial(_)) { t.sched = threads::Sched::Trace(f.trace.clone()); }
    }
    q
}

fn main() {
    hook::install();
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map_or("", String::as_str);
    if args.iter().any(|a| a == "--trace") { TRACE.store(true, AO::Relaxed); }
    match cmd {
        "run" => run(&args),
        "replay" => {
            let p: Plan = match std::fs::read(&args[2]).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
                Some(p) => p,
                None => { eprintln!("no plan in {}", args[2]); std::process::exit(2) }
            };
            RUN.store(p.run, AO::Relaxed);
            let mut st = Stats::default();
            let f = verdict(&p, &mut st);
            println!("{}", serde_json::json!({
                "viol": show(&f.r.viol), "foreign": show(&f.r.foreign), "digest": format!("{:016x}", f.r.digest),
                "build": BUILD, "trace": f.trace.len(),
            }));
        }
        "plan" => {
            let p = generate(&arg(&args, "--prop").unwrap(), num(&args, "--seed", 1), num(&args, "--from", 0));
            println!("{}", serde_json::to_string(&p).unwrap());
        }
        "shrink" => {
            let p: Plan = serde_json::from_slice(&std::fs::read(&args[2]).unwrap()).unwrap();
            let secs = num(&args, "--secs", 60);
            let (q, v, tried) = shrink::shrink(p, secs);
            let ok = v.is_some();
            std::fs::write(&args[3], serde_json::to_vec(&q).unwrap()).unwrap();
            println!("{}", serde_json::json!({ "viol": show(&v), "tried": tried }));
            std::process::exit(if ok { 0 } else { 1 });
        }
        _ => { eprintln!("usage: sim run|replay|plan|shrink"); std::process::exit(2) }
    }
}

fn run(args: &[String]) {
    let prop = arg(args, "--prop").unwrap();
    let (seed, from, to) = (num(args, "--seed", 1), num(args, "--from", 0), num(args, "--to", 1));
    let stride = num(args, "--stride", 1).max(1);
    let secs = num(args, "--secs", 100_000);
    let recheck = num(args, "--recheck", 0);
    let progress = arg(args, "--progress").map(|f| std::fs::File::create(f).unwrap());
    let start = std::time::Instant::now();
    let mut st = Stats::default();
    let (mut runs, mut nontrivial, mut foreign) = (0u64, 0u64, 0u64);
    let mut digest = 0u64;
    let mut nondet = Vec::new();
    let mut rechecked = 0u64;
    let mut foreign_classes: std::collections::BTreeMap<String, u64> = Default::default();
    let mut found = serde_json::Value::Null;
    let mut timed_out = false;
    let mut samples: Vec<serde_json::Value> = Vec::new();
    let mut plans: Vec<serde_json::Value> = Vec::new();
    let mut i = from;
    while i < to {
        if start.elapsed().as_secs() >= secs { timed_out = true; break; }
        RUN.store(i, AO::Relaxed);
        if let Some(p) = &progress {
            use std::os::unix::fs::FileExt;
            let _ = p.write_at(&i.to_le_bytes(), 0);
        }
        let p = generate(&prop, seed, i);
        let f = verdict(&p, &mut st);
        runs += 1;
        if f.r.nontrivial {
            nontrivial += 1;
            st.runs.insert(f.r.digest);
            if plans.len() < 2 && f.r.viol.is_none() { plans.push(serde_json::to_value(explicit(&p, &f)).unwrap_or_default()); }
        }
        digest = rng::mix(digest ^ f.r.digest);
        if let Some(v) = &f.r.foreign {
            foreign += 1;
            *foreign_classes.entry(format!("{}:{:x}", v.class, v.owners)).or_default() += 1;
            if samples.len() < 5 { samples.push(serde_json::json!({ "run": i, "foreign": show(&f.r.foreign) })); }
        }
        if f.r.viol.is_some() {
            let q = explicit(&p, &f);
            found = serde_json::json!({ "viol": show(&f.r.viol), "plan": q, "digest": format!("{:016x}", f.r.digest), "run": i });
            break;
        }
        // The same plan again must give the same run, element operation by element operation.
        if recheck > 0 && i % recheck == 0 {
            let mut scratch = Stats::default();
            rechecked += 1;
            let g = execute(&p, &mut scratch);
            if g.r.digest != f.r.digest { nondet.push(i); }
            let e = explicit(&p, &f);
            let g = execute(&e, &mut scratch);
            if g.r.digest != f.r.digest { nondet.push(i); }
        }
        i += stride;
    }
    let out = serde_json::json!({
        "prop": prop, "build": BUILD, "runs": runs, "nontrivial": nontrivial, "foreign": foreign, "foreign_classes": foreign_classes,
        "foreign_samples": samples, "digest": format!("{digest:016x}"), "nondeterministic": nondet, "rechecked": rechecked, "counts": st.n,
        "steps": st.steps, "calls": st.calls, "elem_ops": st.elem_ops, "oracle": st.oracle, "timed_out": timed_out,
        "states": st.states.len(), "distinct_runs": st.runs.len(), "peak_percent": st.peak, "plans": plans, "secs": start.elapsed().as_secs_f64(), "found": found,
    });
    for (k, set) in [("--states", &st.states), ("--digests", &st.runs)] {
        if let Some(f) = arg(args, k) {
            let mut v: Vec<u8> = Vec::with_capacity(set.len() * 8);
            for s in set { v.extend_from_slice(&s.to_le_bytes()); }
            let _ = std::fs::write(f, v);
        }
    }
    match arg(args, "--out") {
        Some(f) => std::fs::write(f, serde_json::to_vec(&out).unwrap()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&out).unwrap()),
    }
}

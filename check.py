#!/usr/bin/env python3
"""Decides one property of normalize_interval by deterministic simulation.

  check.py C01            simulate the property's runs (VERIF_SEED, VERIF_TIER)
  check.py --replay FILE  replay a violation from its replay file
  check.py --build        build the simulator only

Exit 0: the property held on everything simulated. Exit 1: violated, with a
line "VIOLATION property=<id> replay=<path>". Exit 2: no answer.
"""
import fcntl, hashlib, json, os, resource, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SIM = os.path.join(VERIF, "sim")
TARGET = os.path.join(SIM, "target")
BUILDS = ("checked", "release")
WORKERS = 8
HANG = 60          # seconds without a finished run before a worker is given up
MEMORY = 6 << 30   # address space per worker

# Owner bits of library calls, as in sim/src/machine.rs.
BIT = {f"C{i:02}": 1 << i for i in range(1, 15)}

# Simulated runs: (quick, thorough). Time caps only guard against a slow machine.
RUNS = {
    "C01": (220_000, 9_000_000), "C02": (220_000, 9_000_000), "C03": (200_000, 8_000_000),
    "C04": (400_000, 16_000_000), "C05": (200_000, 8_000_000), "C06": (200_000, 8_000_000),
    "C07": (160_000, 5_000_000), "C08": (240_000, 10_000_000), "C09": (220_000, 11_000_000),
    "C10": (700_000, 30_000_000), "C11": (900_000, 36_000_000), "C12": (260_000, 10_000_000),
    "C13": (200_000, 8_000_000), "C14": (320_000, 12_000_000),
}
CAP = {"quick": 90, "thorough": 600}
RECHECK = {"quick": 97, "thorough": 997}

RULE = {
    "C07": "One case is a seeded plan of 2-4 client threads over shared, private and lock-guarded values, with a seeded scheduler "
           "(random walk or priority based) choosing who runs at every element operation and injecting stalls and unwinding clients. "
           "Non-trivial: at least one call was preempted inside the library by another client, and results were compared with the solo results.",
    "C10": "One case is a seeded plan of intervals written to a simulated log with short writes, interruptions, failures, full disk, crashes and "
           "element formatting errors. Non-trivial: at least one sink or element fault fired, or a record was recovered and compared.",
    "C11": "One case is a seeded log of interval records, torn, glued, bit-flipped, spliced or edited, then recovered. "
           "Non-trivial: at least one record was recovered and compared with the reference grammar.",
}
RULE_MACHINE = ("One case is a seeded history of operations by several clients over shared registers, iterators and a simulated disk, with faults "
    "(unwinding and re-entrant element code, dying and misreporting streams, short, interrupted and failing I/O, crashes and restarts, damaged documents) "
    "drawn per run. Non-trivial: the property's own oracle was evaluated at least once")
NEEDS_FAULT = {"C05", "C06", "C08", "C09"}


def log(*a):
    print(*a, flush=True)


def cargo_env():
    e = dict(os.environ)
    e.update({
        "HOME": "/root", "PATH": "/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin",
        "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true",
        "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": "", "CARGO_TARGET_DIR": TARGET,
    })
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()


def binary(build):
    return os.path.join(TARGET, build, "sim")


def build():
    """Builds both simulators from /repo's working tree."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp, now = os.path.join(TARGET, ".repo-hash"), tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else None
        if old != now:
            if os.path.exists(stamp):
                os.remove(stamp)
            for b in BUILDS:
                if os.path.isdir(os.path.join(TARGET, b)):
                    subprocess.run(["cargo", "clean", "--offline", "-p", "normalize_interval", "--profile", b],
                                   cwd=SIM, env=cargo_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        jobs = [(b, subprocess.Popen(["cargo", "build", "--offline", "--locked", "--profile", b], cwd=SIM, env=cargo_env(),
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for b in BUILDS]
        failed = False
        for b, j in jobs:
            out = j.communicate()[0].decode(errors="replace")
            if j.returncode != 0:
                failed = True
                log(f"build of the simulator ({b}) failed:\n" + out[-4000:])
        if failed:
            sys.exit(2)
        with open(stamp, "w") as f:
            f.write(now)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sim(build, *args, timeout=None, stdout=subprocess.PIPE, stderr=subprocess.PIPE):
    """Runs the simulator; a time-out gives return code None."""
    p = subprocess.Popen([binary(build), *map(str, args)], stdout=stdout, stderr=stderr, preexec_fn=limits)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o or b"", e or b""
    except subprocess.TimeoutExpired:
        p.kill()
        o, e = p.communicate()
        return None, o or b"", e or b""


def died(build, plan, timeout=30):
    """(how, owner bits, call) of a run that hangs or takes the process down,
    or None if it ends."""
    rc, _, err = sim(build, "replay", plan, "--trace", timeout=timeout)
    if rc == 0:
        return None
    owners, call = 0, "start"
    for line in reversed(err.decode(errors="replace").splitlines()[-50:]):
        if line.startswith("@ "):
            f = line.split(" ", 3)
            owners, call = int(f[2]), f[3]
            break
    if rc is None:
        return "hang", owners | BIT["C13"], call
    if rc == 77:
        return "stuck", BIT["C07"] | BIT["C13"], call
    return f"crash ({'signal %d' % -rc if rc < 0 else 'exit %d' % rc})", owners, call


def ddmin_died(build, plan, how, secs=60):
    """Fewer steps, as long as the run dies in the same way."""
    until = time.time() + secs
    def steps(p):
        k = p["kind"]
        return k["Machine"]["steps"] if "Machine" in k else None
    if steps(plan) is None:
        return plan
    best = plan
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "p.json")
        def fails(p):
            with open(f, "w") as fh:
                json.dump(p, fh)
            r = died(build, f, timeout=5 if how == "hang" else 20)
            return r is not None and r[0].split(" ")[0] == how.split(" ")[0]
        n = max(1, (len(steps(best)) + 1) // 2)
        while True:
            i = 0
            while i < len(steps(best)) and time.time() < until:
                q = json.loads(json.dumps(best))
                del steps(q)[i:i + n]
                if steps(q) and fails(q):
                    best = q
                else:
                    i += n
            if n == 1 or time.time() >= until:
                return best
            n = (n + 1) // 2


def save(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(obj, f)
    os.replace(path + ".tmp", path)


def replay_plan(prop, build, path):
    """The violation that a replay file shows, or None."""
    rc, out, _ = sim(build, "replay", path, timeout=60)
    if rc == 0:
        return json.loads(out)["viol"]
    d = died(build, path)
    if d and d[1] & BIT[prop]:
        return {"class": d[0], "msg": f"{d[0]} in call: {d[2]}", "owners": d[1]}
    return None


def report(prop, build, plan, viol, seed, run, batch):
    """Minimises, writes and checks the replay file; prints the violation."""
    path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{run}.json")
    head = {"property": prop, "build": build, "seed": seed, "run": run}
    cands = []
    with tempfile.TemporaryDirectory() as d:
        a, b = os.path.join(d, "a.json"), os.path.join(d, "b.json")
        save(a, plan)
        if viol.get("died"):
            cands.append(ddmin_died(build, plan, viol["class"]))
        else:
            rc, _, _ = sim(build, "shrink", a, b, "--secs", 40, timeout=120)
            if rc == 0 and os.path.exists(b):
                cands.append(json.load(open(b)))
        cands.append(plan)
        shown = None
        for c in cands:
            save(a, c)
            shown = replay_plan(prop, build, a)
            if shown:
                save(path, dict(head, violation=shown, plan=c))
                break
        if not shown:
            # It needs the runs before it (state kept between calls): replay the worker's batch.
            save(path, dict(head, violation=viol, batch=batch, plan=plan))
            shown = dict(viol, msg=viol["msg"] + " (replays as a batch: it depends on earlier runs in the process)")
    log(f"run {run} (seed {seed}, {build} build): {shown['class']}: {shown['msg']}")
    log(f"VIOLATION property={prop} replay={path}")


def replay_file(path):
    d = json.load(open(path))
    prop, b = d["property"], d["build"]
    build()
    if "batch" in d:
        rc, out, _ = sim(b, "run", *d["batch"], timeout=900)
        v = json.loads(out)["found"] if rc == 0 else None
        v = v and v["viol"]
    else:
        with tempfile.TemporaryDirectory() as t:
            f = os.path.join(t, "p.json")
            save(f, d["plan"])
            v = replay_plan(prop, b, f)
    if v:
        log(f"{v['class']}: {v['msg']}")
        log(f"VIOLATION property={prop} replay={path}")
        return 1
    log(f"{path}: the plan runs clean on this tree")
    return 0


class Worker:
    def __init__(self, i, prop, seed, runs, cap, recheck, tmp):
        self.i, self.prop, self.seed, self.runs, self.cap, self.recheck, self.tmp = i, prop, seed, runs, cap, recheck, tmp
        self.build = BUILDS[i % 2]
        self.next, self.part, self.results, self.dead = i, 0, [], []
        self.started = time.time()
        self.spawn()

    def f(self, k):
        return os.path.join(self.tmp, f"{self.i}.{self.part}.{k}")

    def spawn(self):
        self.part += 1
        left = max(1, int(self.cap - (time.time() - self.started)))
        self.args = ["--prop", self.prop, "--seed", self.seed, "--from", self.next, "--to", self.runs, "--stride", WORKERS,
                     "--secs", left, "--recheck", self.recheck]
        self.p = subprocess.Popen([binary(self.build), "run", *map(str, self.args), "--progress", self.f("p"), "--out", self.f("out"),
                                   "--states", self.f("states"), "--digests", self.f("digests")],
                                  stdout=subprocess.DEVNULL, stderr=open(self.f("err"), "wb"), preexec_fn=limits)
        self.at, self.moved = None, time.time()

    def progress(self):
        try:
            b = open(self.f("p"), "rb").read(8)
            return struct.unpack("<Q", b)[0] if len(b) == 8 else None
        except OSError:
            return None

    def poll(self):
        """None while running, "done", or ("died", run) after a crash or hang."""
        rc = self.p.poll()
        at = self.progress()
        if rc is None:
            if at != self.at:
                self.at, self.moved = at, time.time()
            elif time.time() - self.moved > HANG:
                self.p.kill()
                self.p.wait()
                return "died", at
            return None
        if rc == 0 and os.path.exists(self.f("out")):
            self.results.append(json.load(open(self.f("out"))))
            return "done"
        return "died", at


def unique(paths):
    seen = set()
    for p in paths:
        if os.path.exists(p):
            b = open(p, "rb").read()
            seen.update(struct.unpack(f"<{len(b) // 8}Q", b))
    return len(seen)


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in CAP else "quick"
    log(f"{prop}: seed {seed}, tier {tier}")
    build()
    t1 = time.time()
    runs = int(os.environ.get("SIM_RUNS", RUNS[prop][tier == "thorough"]))
    tmp = tempfile.mkdtemp(prefix="sim-")
    found, foreign_died, errors = None, [], []
    try:
        ws = [Worker(i, prop, seed, runs, CAP[tier], RECHECK[tier], tmp) for i in range(WORKERS)]
        live, stop = list(ws), None
        while live:
            time.sleep(0.05)
            for w in list(live):
                r = w.poll()
                if r is None:
                    continue
                if r == "done":
                    live.remove(w)
                    x = w.results[-1]["found"]
                    if x:
                        c = (x["run"], w.build, x["plan"], x["viol"], w.args)
                        found = min(found, c, key=lambda c: c[0]) if found else c
                    continue
                # The process was taken down or hangs: name the call, go on behind it.
                run = r[1]
                if run is None:
                    errors.append("a simulator process did not start: " + open(w.f("err"), errors="replace").read()[-500:])
                    live.remove(w)
                    continue
                _, out, _ = sim(w.build, "plan", "--prop", prop, "--seed", seed, "--from", run)
                pf = os.path.join(tmp, f"died-{w.i}.json")
                plan = json.loads(out)
                plan["build"] = w.build
                save(pf, plan)
                d = died(w.build, pf)
                if d and d[1] & BIT[prop]:
                    v = {"class": d[0], "msg": f"{d[0]} in call: {d[2]}", "owners": d[1], "died": True}
                    c = (run, w.build, plan, v, w.args)
                    found = min(found, c, key=lambda c: c[0]) if found else c
                    live.remove(w)
                    continue
                foreign_died.append({"run": run, "build": w.build, "how": d[0] if d else "not repeated", "call": d[2] if d else ""})
                w.dead.append(run)
                w.next = run + WORKERS
                if w.next >= runs or len(w.dead) >= 20:
                    live.remove(w)
                else:
                    w.spawn()
            if found:
                # A smaller run may still be failing elsewhere; do not wait long for it.
                stop = stop or time.time() + 2
                if time.time() > stop:
                    break
        for w in live:
            w.p.kill()
            w.p.wait()
        t2 = time.time()
        ev = evidence(prop, seed, tier, ws, runs, t0, t1, t2, found, foreign_died, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if found:
        run, b, plan, viol, batch = found
        report(prop, b, plan, viol, seed, run, [str(a) for a in batch])
        return 1
    c = ev["coverage"]
    log(f"{prop}: held on {c['evaluations']} runs ({c['distinct_nontrivial']} distinct non-trivial), {c['simulated_time']['element_operations']} element operations, "
        f"{sum(c['faults_injected'].values())} faults, {c['distinct_states']} states; {c['foreign_failures']} runs failed for other properties; "
        f"{ev['wall_s']:.0f} s")
    if errors or c["evaluations"] == 0:
        log("\n".join(errors) or "nothing was simulated")
        return 2
    return 0


def evidence(prop, seed, tier, ws, runs, t0, t1, t2, found, foreign_died, tmp):
    res = [(w, r) for w in ws for r in w.results]
    tot = lambda k: sum(r[k] for _, r in res)
    counts = {}
    for _, r in res:
        for k, n in r["counts"].items():
            counts[k] = counts.get(k, 0) + n
    paths = lambda k: [os.path.join(tmp, f) for f in os.listdir(tmp) if f.endswith("." + k)]
    foreign = tot("foreign") + len(foreign_died)
    classes = {}
    for _, r in res:
        for k, n in r["foreign_classes"].items():
            classes[k] = classes.get(k, 0) + n
    nd = sorted({n for _, r in res for n in r["nondeterministic"]})
    rule = RULE.get(prop) or RULE_MACHINE + (" and at least one fault fired." if prop in NEEDS_FAULT else ".")
    hours = max(t2 - t1, 1e-6) / 3600
    samples = [p for _, r in res for p in r["plans"]][:3]
    stubs = {
        "real": ["all of normalize_interval (/repo working tree), in a build with assertions and overflow checks and in a release build",
                 "serde_json and bincode in front of the simulated disk", "std collections, formatting and parsing"],
        "simulated": ["element type (every comparison, clone, step, hash, conversion is a scheduling and fault point)",
                      "streams fed to bulk operations", "disk, text sinks and crashes", "thread scheduler (real threads, one released at a time)"],
        "stub": [],
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot("runs"), "distinct_nontrivial": unique(paths("digests")), "rule": rule, "samples": samples,
            "nontrivial_runs": tot("nontrivial"), "planned_runs": runs,
            "seeds": f"runs 0..{runs} of VERIF_SEED={seed}, each with its own generator seeded from (property, seed, run)",
            "runs_per_hour": round(tot("runs") / hours), "simulation_wall_s": round(t2 - t1, 2),
            "simulated_time": {"unit": "logical: the library has no clock; time is library calls and element operations",
                               "steps": tot("steps"), "library_calls": tot("calls"), "element_operations": tot("elem_ops")},
            "oracle_evaluations": tot("oracle"),
            "faults_injected": {k[7:]: n for k, n in sorted(counts.items()) if k.startswith("fault: ")},
            "probes": {k[7:]: n for k, n in sorted(counts.items()) if k.startswith("probe: ")},
            "other_counts": {k: n for k, n in sorted(counts.items()) if not k.startswith(("fault: ", "probe: "))},
            "distinct_states": unique(paths("states")),
            "state_measure": "hash of the reference model's registers, open iterators and stored documents after each step (C07: of the schedule prefix)",
            "run_measure": "distinct digests of complete non-trivial runs (every result and element-operation count)",
            "peak_percent_of_operation_budget": max([r["peak_percent"] for _, r in res] or [0]),
            "determinism": {"runs_repeated_and_compared": tot("rechecked"), "differing": nd},
            "components": stubs,
            "foreign_failures": foreign, "foreign_classes": classes, "foreign_crashes": foreign_died[:20],
            "time_capped": any(r["timed_out"] for _, r in res),
            "builds": {b: sum(r["runs"] for w, r in res if w.build == b) for b in BUILDS},
        },
        "assumptions": [
            "Sampling by seeded search: evidence, not proof.",
            "The reference model (finite bit sets over the element universe) and the element type's order are right.",
            "Element code behaves as a total order with exact predecessor and successor, except where a fault is injected.",
        ],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if found else 0,
    }
    save(os.path.join(VERIF, "evidence", f"{prop}.json"), ev)
    return ev


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        build()
        return 0
    if len(a) == 2 and a[0] == "--replay":
        return replay_file(a[1])
    if len(a) == 1 and a[0] in RUNS:
        return check(a[0])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())

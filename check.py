#!/usr/bin/env python3
"""check.py ID: decide one property on /repo's current working tree.

Builds the simulator against /repo (two build profiles), runs seeded
simulations, writes evidence/ID.json. Exit 0: held on everything explored.
Exit 1 with a VIOLATION line: broken. Exit 2: the check itself failed.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(HERE, "target")
REPLAYS = os.path.join(HERE, "replays")
CORES = os.cpu_count() or 8

# runs in the quick tier (release, dbg) and what a run of this property varies
RUNS = {
    "C01": (14000, 5000), "C02": (9000, 4000), "C03": (8000, 4000), "C04": (12000, 5000), "C05": (12000, 5000),
    "C06": (9000, 4000), "C07": (9000, 4000), "C08": (9000, 4000), "C09": (9000, 2500), "C10": (9000, 4000),
    "C11": (50000, 20000), "C12": (9000, 4000), "C13": (20000, 10000), "C14": (9000, 5000),
    "C15": (9000, 4000), "C16": (12000, 5000), "C17": (12000, 5000),
    "C18": (4000, 0), "C19": (120000, 40000), "C20": (2500, 800),
}
THOROUGH = 20
SESSION = {"C13", "C14", "C19"}
STATIC = {"C15", "C18"}
PROFILES = [("release", 0), ("dbg", 1 << 40)]

LIB_RULE = (
    "A case is one simulated run: a seeded plan of 1-6 threads, each a list of library calls with seeded arguments and "
    "injected faults, executed under a seeded schedule that decides every thread switch at every memory access and "
    "synchronisation of the instrumented crate, in a simulated environment (clock, entropy, heap). A run is non-trivial "
    "if at least one preemption, stall, spurious wake-up, clock jump, entropy fault, allocation failure or caller-code "
    "fault was actually delivered in it; distinct means a distinct hash of its complete event log."
)
SES_RULE = (
    "A case is one simulated session of the real program from start to exit: a seeded script of input lines delivered "
    "in seeded pieces, as a pipe, a dumb terminal or key strokes at a terminal, with seeded entropy and faults. It is "
    "non-trivial if at least one fault (interrupted, failed, short or early-ending read or write, resize, entropy "
    "fault) was actually delivered; distinct means a distinct hash of its complete event log."
)
NET_RULE = (
    "A case is one simulated series of builds in the same output directory: each attempt runs the real build script against a "
    "seeded network (healthy, unreachable, error page, truncated with and without notice, empty) and a seeded disk (failed, "
    "interrupted and short calls, the process killed before, during or after a call). A table that an attempt leaves behind "
    "with success is compiled into the real crate and asked about every hand. Non-trivial: at least one fault was delivered; "
    "distinct: a distinct hash of the outcomes, file-system calls and tables."
)
REAL = {
    "static": ["poker crate built from /repo with the static_lookup feature, its build script included", "rand, rand_chacha, getrandom, itertools, rustc-hash, phf", "Rust std"],
    "net": ["build script of poker from /repo, compiled by cargo with the static_lookup feature", "poker crate from /repo compiled with whatever table the script left", "phf, Rust std"],
    "lib": ["poker crate built from /repo (all of card, deck, error, evaluate; uninstrumented source, compiler-instrumented memory accesses)",
            "rand, rand_chacha, getrandom, itertools, rustc-hash", "Rust std (threads, locks, once cells, channels, formatting)"],
    "ses": ["examples/jacks-or-better.rs, examples/poker-repl.rs, examples/common from /repo as complete processes",
            "poker crate from /repo", "rustyline, colored, rand, Rust std"],
}
STUB = {
    "static": ["HTTP client of the build script (hands over a table generated by the reference model in the format the pinned tree reads)",
               "thread scheduling", "clocks and sleeping", "getrandom and /dev/urandom", "heap allocator (failures injected, then the system allocator)",
               "caller-supplied containers, iterators, random sources and formatting targets", "process id"],
    "net": ["reqwest (HTTP client) and the network behind it", "file-system calls below OUT_DIR (faults injected, then the real ones)", "cargo's running of the build script"],
    "lib": ["thread scheduling", "clocks and sleeping", "getrandom and /dev/urandom", "heap allocator (failures injected, then the system allocator)",
            "caller-supplied containers, iterators, random sources and formatting targets", "process id"],
    "ses": ["terminal (termios, window size, resize signal)", "standard input and output", "getrandom and /dev/urandom",
            "hash seeds", "clocks", "process id", "signals to other processes"],
}
ASSUME = {
    "static": ["the table the published address holds cannot be had offline: a table with the same names and types, computed by the reference model, takes its place",
               "threads switch only at instrumented memory accesses, atomics, locks and other seams of the crate under test, under a sequentially consistent memory"],
    "net": ["transport integrity: what arrives is what the server sent, or a prefix of it", "a build whose script ended with success is not followed by a power loss that undoes its writes",
            "the published table cannot be had offline: one with the same names and types, computed by the reference model, takes its place"],
    "lib": ["threads switch only at instrumented memory accesses, atomics, locks and other seams of the crate under test, under a sequentially consistent memory",
            "the executable reference model of poker in sim/src/refmodel.rs (cross-checked by brute force at every start)",
            "the static_lookup feature is off (it needs a download at build time)"],
    "ses": ["the operating system is met only through the intercepted libc calls", "a terminal line is what the line editor (rustyline) hands over",
            "the executable reference model of poker in sim/src/refmodel.rs (cross-checked by brute force at every start)"],
}


def die(msg):
    print(f"check error: {msg}", flush=True)
    sys.exit(2)


def digest(paths):
    h = hashlib.sha256()
    for top in paths:
        if os.path.isfile(top):
            files = [top]
        else:
            files = []
            for d, ds, fs in os.walk(top):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "evidence", "replays"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            try:
                with open(f, "rb") as g:
                    h.update(g.read())
            except OSError:
                pass
    return h.hexdigest()


def table():
    """What the build script of poker would download. Returns the generator and the file."""
    crate = os.path.join(HERE, "static", "tablegen")
    target = os.path.join(TARGET, "tablegen")
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "source.sha256")
    now = digest([REPO, os.path.join(HERE, "static"), os.path.join(HERE, "sim", "src")])
    forget(target, "release", stamp, now)
    r = subprocess.run(["cargo", "build", "--offline", "--release"], cwd=crate, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, env=dict(os.environ, CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never"))
    if r.returncode != 0:
        print(r.stdout[-6000:])
        die("the table generator does not build")
    with open(stamp, "w") as f:
        f.write(now)
    return os.path.join(target, "release", "tablegen"), os.path.join(target, "codegen.txt")


def forget(target, p, stamp, now):
    """Never trust time stamps: compile what depends on /repo again."""
    if os.path.exists(stamp) and open(stamp).read() == now:
        return
    fp = os.path.join(target, p, ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if re.match(r"(poker|simclient|sim|session|tablegen)-", d):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)


def build(kind):
    """Build both profiles of one harness crate. Returns {profile: binary}."""
    crate = os.path.join(HERE, "session" if kind == "ses" else "sim")
    target = os.path.join(TARGET, {"ses": "session", "lib": "sim", "static": "simstatic"}[kind])
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, "source.sha256")
    now = digest([REPO, crate, os.path.join(HERE, "sim", "src"), os.path.join(HERE, "static")])
    old = open(stamp).read() if os.path.exists(stamp) else ""
    for p, _ in PROFILES:
        forget(target, p, stamp, now)
    if old != now and os.path.exists(stamp):
        os.unlink(stamp)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    if kind != "ses":
        env["RUSTC_BOOTSTRAP"] = "1"  # the stable compiler's -Zsanitizer=thread
        env["RUSTC_WRAPPER"] = os.path.join(crate, "rustc-wrapper.sh")
    tries = [None]
    if kind == "static":
        # the pinned format first; if the tree's types have changed so that it does not
        # compile, the same table as the tree itself would write it
        gen, file = table()
        net = os.path.join(target, "net")
        with open(net, "w") as f:
            f.write(f"body {file}\nlength\n")
        env["POKER_SIM_NET"] = net
        tries = [[gen, file], [gen, "tree", file]]
    for i, t in enumerate(tries):
        if t:
            subprocess.run(t, check=True)
            if i:
                for p, _ in PROFILES:
                    forget(target, p, stamp, now)
        bad = None
        for p, _ in PROFILES:
            cmd = ["cargo", "build", "--offline", "--profile", p] + (["--features", "static"] if kind == "static" else [])
            r = subprocess.run(cmd, cwd=crate, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                bad = (p, r.stdout)
                break
        if not bad:
            break
    if bad:
        print(bad[1][-6000:])
        die(f"the {bad[0]} build failed")
    with open(stamp, "w") as f:
        f.write(now)
    name = "sess" if kind == "ses" else "sim"
    return {p: os.path.join(target, p, name) for p, _ in PROFILES}


def known(prop):
    out = []
    f = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding: "):
                d = json.loads(l[len("finding: "):])
                if d["property"] == prop:
                    out.append(d)
    return out


def listed(v, prop):
    for d in known(prop):
        if d["class"] == v["class"] and re.search(d["detail"], v["detail"]):
            return d
    return None


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in RUNS:
        die("usage: check.py " + "|".join(RUNS))
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    kind = "ses" if prop in SESSION else "static" if prop in STATIC else "lib"
    os.makedirs(TARGET, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    lock = open(os.path.join(TARGET, f"{kind}.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if prop == "C18":
        return downloads(seed, tier, t0)
    bins = build(kind)
    built = time.time() - t0
    # time left for searching, whatever the machine
    budget = 4 * 3600 if tier == "thorough" else max(60, 420 - built)
    res, viols = [], []
    for (p, offset), quick in zip(PROFILES, RUNS[prop]):
        runs = quick * (THOROUGH if tier == "thorough" else 1)
        start = 0
        while True:
            out = os.path.join(TARGET, f"{prop}.{p}.json")
            if os.path.exists(out):
                os.unlink(out)
            wall = max(20, int(budget * (0.7 if p == "release" else 0.3)))
            cmd = [bins[p], "run", prop, "--seed", str(seed), "--runs", str(runs - start), "--offset", str(offset + start),
                   "--workers", str(CORES), "--wall", str(wall), "--profile", p, "--out", out, "--replay-dir", REPLAYS]
            r = subprocess.run(cmd, stdin=subprocess.DEVNULL)
            if r.returncode not in (0, 1) or not os.path.exists(out):
                die(f"{p} simulator ended with {r.returncode}")
            d = json.load(open(out))
            res.append(d)
            v = d["violation"]
            if v:
                k = listed(v, prop)
                if k and "run" in v:
                    print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
                    start = v["run"] - offset + 1
                    if start < runs:
                        continue
                elif k:
                    print(f"KNOWN-FINDING: property={prop} {k['what']}", flush=True)
                else:
                    viols.append(v)
            break
        if viols:
            break
    evidence(prop, kind, seed, tier, res, viols, t0, built, bins)
    if viols:
        v = viols[0]
        print(f"{v['class']}: {v['detail']}")
        print(f"VIOLATION property={prop} replay={v['replay']}", flush=True)
        sys.exit(1)
    n = sum(d["runs"] for d in res)
    print(f"{prop}: held in {n} simulated runs, {time.time() - t0:.0f} s")
    sys.exit(0)


def downloads(seed, tier, t0):
    """C18: whole builds, in static/download.py."""
    sys.path.insert(0, os.path.join(HERE, "static"))
    import download
    gen, file = table()
    env = dict(os.environ, CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    world, out = download.prepare(HERE, gen, file, env)
    if world is None:
        print(out[-6000:])
        die("the build with the static table failed")
    built = time.time() - t0
    n = RUNS["C18"][0] * (THOROUGH if tier == "thorough" else 1)
    d = download.explore(seed, n, 0, 4 * 3600 if tier == "thorough" else max(60, 500 - built), world, REPLAYS)
    v, s = d["violation"], d["stats"]
    cov = {
        "evaluations": d["runs"], "distinct_nontrivial": d["nontrivial"], "rule": NET_RULE,
        "samples": [download.plan(seed, i, len(world.table)) for i in range(4)],
        "runs_per_hour": round(d["runs"] / max(d["seconds"], 0.01) * 3600), "seeds_per_hour": round(d["runs"] / max(d["seconds"], 0.01) * 3600),
        "seeds": f"plan seeds ({seed}, C18, run) with one new run number per run",
        "simulated_seconds": 0,
        "distinct_interleavings": {"count": len(d["distinct"]), "measure": "distinct hashes of a run's outcomes, file-system calls and resulting tables"},
        "faults_injected": {k: x for k, x in sorted(s.items()) if (k.startswith("net_") or k.startswith("disk_")) and k not in ("net_healthy", "disk_calls")},
        "case_events": s,
        "determinism": {"runs_repeated": d["reruns"], "differences": d["differences"]},
        "components_real": REAL["net"], "components_simulated": STUB["net"], "build_seconds": round(built, 1),
    }
    if d["differences"] and not v:
        die("a run was not repeatable")
    k = listed(v, "C18") if v else None
    if k:
        print(f"KNOWN-FINDING: property=C18 {k['what']}", flush=True)
        v = None
    if v:
        cov["violation"] = v
    ev = {"property": "C18", "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME["net"],
          "wall_s": round(time.time() - t0, 2), "violations": 1 if v else 0}
    f = os.path.join(HERE, "evidence", "C18.json")
    with open(f + ".new", "w") as g:
        json.dump(ev, g, indent=1, ensure_ascii=False)
    os.replace(f + ".new", f)
    if v:
        print(f"{v['class']}: {v['detail']}")
        print(f"VIOLATION property=C18 replay={v['replay']}", flush=True)
        sys.exit(1)
    print(f"C18: held in {d['runs']} simulated runs, {time.time() - t0:.0f} s")
    sys.exit(0)


def total(res, key):
    t = {}
    for d in res:
        for k, v in d[key].items():
            t[k] = t.get(k, 0) + v
    return t


def evidence(prop, kind, seed, tier, res, viols, t0, built, bins):
    runs = sum(d["runs"] for d in res)
    secs = sum(d["search_seconds"] for d in res)
    samples = []
    for (p, off) in PROFILES:
        for i in (0, 1, 2) if p == "release" else (0,):
            r = subprocess.run([bins[p], "plan", prop, "--seed", str(seed), "--run", str(off + i), "--profile", p],
                               capture_output=True, text=True)
            try:
                t = json.dumps(json.loads(r.stdout), ensure_ascii=False)
                samples.append({"run": off + i, "profile": p, "plan": t if len(t) < 6000 else t[:6000] + "..."})
            except ValueError:
                pass
    world = total(res, "world")
    faultish = {k: v for k, v in world.items() if k in (
        "preemptions_at_memory_access", "preemptions_at_sync_point", "spurious_wakeups", "clock_jumps", "entropy_interrupted",
        "entropy_short_read", "entropy_call_absent", "entropy_unavailable", "allocation_failures", "stalled_thread_choices",
        "read_interrupted", "read_failed", "end_of_input", "window_resized", "read_would_block", "write_short",
        "write_interrupted", "write_failed", "reads_split_by_the_program", "entropy_device_reads", "timeouts")}
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in res),
        "rule": SES_RULE if kind == "ses" else LIB_RULE,
        "samples": samples,
        "runs_per_hour": round(runs / secs * 3600) if secs else 0,
        "seeds_per_hour": round(runs / secs * 3600) if secs else 0,
        "seeds": f"plan seeds ({seed}, {prop}, run) with one new run number per run",
        "simulated_seconds": sum(d["simulated_seconds"] for d in res),
        "worlds_simulated": sum(d["worlds"] for d in res),
        "distinct_interleavings": {
            "count": sum(d["distinct_schedules"] for d in res),
            "measure": "distinct hashes of the sequence of reads, writes and faults of a session" if kind == "ses"
            else "distinct hashes of the sequence of thread switches (thread, place) of a run"},
        "faults_injected": faultish,
        "environment_events": world,
        "case_events": total(res, "events"),
        "determinism": {"runs_repeated": sum(d["determinism_reruns"] for d in res),
                        "differences": sum(d["determinism_differences"] for d in res)},
        "profiles": {d["profile"]: {"runs": d["runs"], "search_seconds": round(d["search_seconds"], 2)} for d in res},
        "components_real": REAL.get(kind, REAL["lib"]), "components_simulated": STUB.get(kind, STUB["lib"]),
        "build_seconds": round(built, 1),
    }
    stat = {d["profile"]: d["statistics"] for d in res if d["statistics"]}
    if stat:
        cov["z_scores"] = stat
    if kind == "ses":
        m = {}
        for d in res:
            for k, v in d["modes"].items():
                m[k] = m.get(k, 0) + v
        cov["sessions_by_mode"] = m
    if viols:
        cov["violation"] = viols[0]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME.get(kind, ASSUME["lib"]),
          "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    f = os.path.join(HERE, "evidence", prop + ".json")
    with open(f + ".new", "w") as g:
        json.dump(ev, g, indent=1, ensure_ascii=False)
    os.replace(f + ".new", f)


main()

"""Decides C18: simulated builds of poker with the static table, with seeded
network and disk faults. The build script is the real one, compiled by cargo;
its HTTP client is the stand-in in reqwest/, its file-system calls pass through
disk.c. `python3 static/download.py replay FILE` repeats one run."""
import hashlib, json, multiprocessing, os, random, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
CORES = os.cpu_count() or 8
KINDS = ("healthy", "no_connection", "error_page", "truncated_noticed", "truncated_unnoticed", "emptied")
GET = ["error trying to connect: dns error: failed to lookup address information", "error trying to connect: tcp connect error: Connection refused (os error 111)",
       "error trying to connect: tcp connect error: Network is unreachable (os error 101)", "operation timed out", "error trying to connect: invalid peer certificate: UnknownIssuer",
       "connection closed before message completed", "too many redirects", "error trying to connect: unexpected eof"]
PAGES = [(404, "404: Not Found"), (403, "Forbidden"), (429, "429: Too Many Requests\nFor more on scraping GitHub and how it may affect your rights, please review our Terms of Service.\n"),
         (500, ""), (502, "<html>\r\n<head><title>502 Bad Gateway</title></head>\r\n<body>\r\n<center><h1>502 Bad Gateway</h1></center>\r\n</body>\r\n</html>\r\n"),
         (503, "upstream connect error or disconnect/reset before headers. reset reason: connection failure"), (504, "Gateway Time-out"), (301, ""), (304, ""), (204, ""),
         (200, "<!DOCTYPE html><html><body>Sign in to use this network</body></html>"), (200, ""), (200, "\n"), (200, "// mirror temporarily unavailable\n"),
         (200, "{\"message\":\"Not Found\"}"), (404, ""), (410, "/* gone */"), (200, " "), (451, "// unavailable for legal reasons"), (500, "/* internal error */\n")]
ERRNO = {"ENOSPC": 28, "EIO": 5, "EDQUOT": 122, "EACCES": 13, "EROFS": 30, "EINTR": 4, "EMFILE": 24, "EFBIG": 27}


def attempt(r, size):
    a = {"kind": r.choices(KINDS, (22, 16, 26, 14, 16, 6))[0]}
    if a["kind"] == "no_connection":
        a["get"] = r.choice(GET)
    elif a["kind"] == "error_page":
        a["status"], a["page"] = r.choice(PAGES)
    elif a["kind"].startswith("truncated"):
        a["cut"] = r.choice([0, 1, r.randrange(64), r.randrange(size), r.randrange(size), size - 1 - r.randrange(64), size - 2, size // 2])
        a["length"] = a["kind"] == "truncated_noticed" and r.random() < 0.7
    elif a["kind"] == "emptied":
        a["status"] = r.choice([200, 200, 204])
    else:
        a["length"] = r.random() < 0.8
    if r.random() < 0.45:
        f = []
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            n = r.choice([1, 2, 2, 2, 3, 3, 4, r.randrange(1, 30)])
            k = r.random()
            if k < 0.45:
                f.append([n, "fail", r.choice(sorted(ERRNO))])
            elif k < 0.65:
                f.append([n, "short", r.choice([1, 7, 4096, r.randrange(1, size)])])
            elif k < 0.8:
                f.append([n, r.choice(["kill", "killafter"])])
            else:
                f.append([n, "killmid", r.choice([1, 100, r.randrange(size)])])
        a["disk"] = f
    if r.random() < 0.04:
        a["docs_rs"] = r.choice(["0", "1", ""])
    return a


def plan(seed, run, size):
    r = random.Random(f"{seed}/C18/{run}")
    p = {"property": "C18", "seed": seed, "run": run, "attempts": [attempt(r, size) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]}
    if r.random() < 0.5:
        p["attempts"].append({"kind": "healthy", "length": True})
    return p


def healthy(a):
    # interrupted calls and short writes are no failures
    return a["kind"] == "healthy" and "docs_rs" not in a and all(
        f[1] == "short" or (f[1] == "fail" and f[2] == "EINTR") for f in a.get("disk", []))


class World:
    def __init__(self, target, table, script, shim):
        self.target, self.script, self.shim = target, script, shim
        self.table = open(table, "rb").read()
        self.tablefile = table
        self.calls = {}
        for n in ("poker", "probe"):
            d = os.path.join(target, "calls")
            argv = open(os.path.join(d, n + ".argv"), "rb").read().split(b"\0")[:-1]
            env = dict(x.split(b"=", 1) for x in open(os.path.join(d, n + ".env"), "rb").read().split(b"\0") if b"=" in x)
            self.calls[n] = (argv, env)
        self.verdicts = os.path.join(target, "verdicts")
        os.makedirs(self.verdicts, exist_ok=True)

    def compiler(self, name, out, extra):
        argv, env = self.calls[name]
        a, i = [], 0
        while i < len(argv):
            x = argv[i]
            if x == b"--out-dir":
                a += [x, out.encode()]
                i += 1
            elif x.startswith(b"--extern") and extra and argv[i + 1].startswith(b"poker="):
                a += [x, b"poker=" + extra.encode()]
                i += 1
            elif x.startswith(b"incremental="):
                a += [b"debuginfo=0"]
            else:
                a.append(x)
            i += 1
        e = {k: v for k, v in os.environb.items() if k in (b"PATH", b"HOME", b"RUSTUP_HOME", b"CARGO_HOME", b"RUSTUP_TOOLCHAIN")}
        e.update(env)
        pwd = e.pop(b"CARGO_SIM_PWD", b"/")
        if name == "poker":
            e[b"OUT_DIR"] = out.encode()
        return subprocess.run(a, env=e, cwd=pwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)

    def verdict(self, content):
        """What a build with this table is: 'no build', 'right' or 'wrong'."""
        if content == self.table:
            return "right"
        f = os.path.join(self.verdicts, hashlib.sha256(content if content is not None else b"(missing)").hexdigest())
        if os.path.exists(f):
            return open(f).read()
        with tempfile.TemporaryDirectory(dir=self.target) as d:
            if content is not None:
                with open(os.path.join(d, "codegen.rs"), "wb") as g:
                    g.write(content)
            if self.compiler("poker", d, None).returncode != 0:
                v = "no build"
            else:
                lib = [x for x in os.listdir(d) if x.startswith("libpoker") and x.endswith(".rlib")]
                if self.compiler("probe", d, os.path.join(d, lib[0])).returncode != 0:
                    v = "wrong"  # what uses the table does not link
                else:
                    exe = [os.path.join(d, x) for x in os.listdir(d) if x.startswith("probe") and "." not in x]
                    v = "right" if subprocess.run(exe[:1], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120).returncode == 0 else "wrong"
        with open(f + f".{os.getpid()}", "w") as g:
            g.write(v)
        os.rename(f + f".{os.getpid()}", f)
        return v

    def run(self, p):
        """Execute a plan. Returns (violation or None, log, stats)."""
        st, log = {}, []
        bump = lambda k, n=1: st.__setitem__(k, st.get(k, 0) + n)
        bad = None
        with tempfile.TemporaryDirectory(dir=self.target) as top:
            out = os.path.join(top, "out")
            os.mkdir(out)
            before = None
            for i, a in enumerate(p["attempts"]):
                net = os.path.join(top, "net")
                lines = []
                if "get" in a:
                    lines.append("get " + a["get"])
                if "status" in a:
                    lines.append(f"status {a['status']}")
                if "page" in a:
                    with open(os.path.join(top, "page"), "w") as g:
                        g.write(a["page"])
                    lines += [f"body {top}/page", "length"]
                elif a["kind"] != "emptied":
                    lines.append(f"body {self.tablefile}")
                if "cut" in a:
                    lines.append(f"cut {a['cut']}")
                if a["kind"] == "truncated_noticed":
                    lines.append("noticed")
                if a.get("length"):
                    lines.append("length")
                with open(net, "w") as g:
                    g.write("\n".join(lines) + "\n")
                dlog = os.path.join(top, "disk.log")
                disk = ",".join(f"{n}:{k}" + (f":{ERRNO.get(x[0], x[0])}" if x else "") for n, k, *x in a.get("disk", []))
                env = {"PATH": "/usr/bin:/bin", "OUT_DIR": out, "POKER_SIM_NET": net, "LD_PRELOAD": self.shim, "POKER_SIM_DISK": disk, "POKER_SIM_DISKLOG": dlog,
                       "TARGET": "x86_64-unknown-linux-gnu", "HOST": "x86_64-unknown-linux-gnu", "PROFILE": "debug", "CARGO_FEATURE_STATIC_LOOKUP": "1"}
                if "docs_rs" in a:
                    env["DOCS_RS"] = a["docs_rs"]
                bump("attempts")
                bump("net_" + a["kind"])
                try:
                    r = subprocess.run([self.script], env=env, cwd=top, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "hangs"
                calls = open(dlog).read().split("\n")[:-1] if os.path.exists(dlog) else []
                if os.path.exists(dlog):
                    os.unlink(dlog)
                for c in calls:
                    bump("disk_calls")
                    m = re.search(r" (failed|killed before|killed after|killed midway)", c)
                    if m:
                        bump("disk_" + m.group(1).replace(" ", "_"))
                bump("disk_short", sum(1 for f in a.get("disk", []) if f[1] == "short" and f[0] <= len(calls)))
                file = os.path.join(out, "codegen.rs")
                content = open(file, "rb").read() if os.path.exists(file) else None
                log.append([rc, calls, hashlib.sha256(content or b"").hexdigest()])
                if rc == "hangs":
                    bad = ("hangs", f"attempt {i + 1} ({a['kind']}): the build script does not end")
                elif rc == 0:
                    v = self.verdict(content)
                    bump("scripts_succeeded")
                    bump("then_" + v.replace(" ", "_"))
                    if v == "wrong":
                        bad = ("altered-table", f"attempt {i + 1} ({a['kind']}): the build succeeds with a table that is not the one asked for ({len(content or b'')} bytes)")
                    elif v == "no build" and healthy(a):
                        bad = ("no-recovery", f"attempt {i + 1}: nothing fails, but the crate does not compile")
                else:
                    bump("scripts_failed")
                    if healthy(a):
                        bad = ("no-recovery", f"attempt {i + 1}: nothing fails, but the build script ends with {rc}: {r.stderr.decode(errors='replace')[-300:]}")
                if before is not None and content is not None and before != content and rc != 0:
                    bump("left_behind_changed")
                before = content
                if bad:
                    break
        return bad, log, st


W = None


def worker(job):
    seed, run, again = job
    p = plan(seed, run, len(W.table))
    bad, log, st = W.run(p)
    diff = 0
    if again:
        _, log2, _ = W.run(p)
        diff = int(log != log2)
    return run, bad, hashlib.sha256(json.dumps(log).encode()).hexdigest(), st, diff, again


def minimise(p, bad):
    def try_(q):
        b, _, _ = W.run(q)
        return b is not None and b[0] == bad[0]
    changed = True
    while changed:
        changed = False
        cands = []
        for i in range(len(p["attempts"])):
            q = json.loads(json.dumps(p))
            del q["attempts"][i]
            cands.append(q)
            for j in range(len(p["attempts"][i].get("disk", []))):
                q = json.loads(json.dumps(p))
                del q["attempts"][i]["disk"][j]
                cands.append(q)
            if "docs_rs" in p["attempts"][i]:
                q = json.loads(json.dumps(p))
                del q["attempts"][i]["docs_rs"]
                cands.append(q)
        for q in cands:
            if q["attempts"] and try_(q):
                p, changed = q, True
                break
    return p


def explore(seed, runs, offset, wall, world, replays):
    """Returns the same kind of record as the other simulators write."""
    global W
    W = world
    t0 = time.time()
    d = {"profile": "build", "runs": 0, "violation": None, "stats": {}, "distinct": set(), "reruns": 0, "differences": 0, "nontrivial": 0}
    with multiprocessing.Pool(CORES) as pool:
        jobs = ((seed, offset + i, i % 97 == 0) for i in range(runs))
        for run, bad, h, st, diff, again in pool.imap(worker, jobs, chunksize=8):
            d["runs"] += 1
            d["reruns"] += again
            d["differences"] += diff
            for k, v in st.items():
                d["stats"][k] = d["stats"].get(k, 0) + v
            if h not in d["distinct"]:
                d["distinct"].add(h)
                if any(k.startswith("disk_") and k != "disk_calls" and v or k.startswith("net_") and k != "net_healthy" for k, v in st.items()):
                    d["nontrivial"] += 1
            if bad:
                d["violation"] = (run, bad)
                pool.terminate()
                break
            if time.time() - t0 > wall:
                pool.terminate()
                break
    d["seconds"] = time.time() - t0
    if d["violation"]:
        run, bad = d["violation"]
        p = minimise(plan(seed, run, len(W.table)), bad)
        b, log, _ = W.run(p)
        p.update({"violation": list(b or bad), "log": log})
        f = os.path.join(replays, f"C18-s{seed}-r{run}.json")
        with open(f, "w") as g:
            json.dump(p, g, indent=1)
        d["violation"] = {"run": run, "class": (b or bad)[0], "detail": (b or bad)[1], "replay": f}
    return d


def prepare(root, gen, table, env):
    """Build the real build script, the library and the probe; returns the World."""
    target = os.path.join(root, "target", "download")
    shutil.rmtree(os.path.join(target, "verdicts"), ignore_errors=True)
    calls = os.path.join(target, "calls")
    os.makedirs(calls, exist_ok=True)
    net = os.path.join(target, "net")
    with open(net, "w") as f:
        f.write(f"body {table}\nlength\n")
    # compile what depends on /repo again, always: cheap, and time stamps prove nothing
    for sub in (".fingerprint", "build", "incremental"):
        p = os.path.join(target, "debug", sub)
        for x in os.listdir(p) if os.path.isdir(p) else []:
            if re.match(r"(poker|probe)-", x):
                shutil.rmtree(os.path.join(p, x))
    e = dict(env, CARGO_TARGET_DIR=target, POKER_SIM_NET=net, POKER_SIM_CALLS=calls, RUSTC_WRAPPER=os.path.join(HERE, "wrapper.sh"))
    e.pop("RUSTC_BOOTSTRAP", None)
    out = ""
    for how in ([gen, table], [gen, "tree", table]):
        subprocess.run(how, check=True)
        r = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(HERE, "probe"), env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout
        if r.returncode == 0:
            break
        b = os.path.join(target, "debug", "build")
        for x in os.listdir(b) if os.path.isdir(b) else []:
            if x.startswith("poker-"):
                shutil.rmtree(os.path.join(b, x))
        p = os.path.join(target, "debug", ".fingerprint")
        for x in os.listdir(p) if os.path.isdir(p) else []:
            if x.startswith("poker-"):
                shutil.rmtree(os.path.join(p, x))
    else:
        return None, out
    b = os.path.join(target, "debug", "build")
    scripts = [os.path.join(b, x, "build-script-build") for x in os.listdir(b) if x.startswith("poker-")]
    scripts = [s for s in scripts if os.path.exists(s)]
    if len(scripts) != 1:
        return None, f"build scripts: {scripts}"
    shim = os.path.join(target, "disk.so")
    r = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-o", shim, os.path.join(HERE, "disk.c"), "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout
    return World(target, table, scripts[0], shim), ""


def main():
    if len(sys.argv) != 3 or sys.argv[1] != "replay":
        sys.exit("usage: download.py replay FILE (after check.py C18 has built)")
    global W
    root = os.path.dirname(HERE)
    target = os.path.join(root, "target", "download")
    b = os.path.join(target, "debug", "build")
    script = [os.path.join(b, x, "build-script-build") for x in os.listdir(b) if x.startswith("poker-") and os.path.exists(os.path.join(b, x, "build-script-build"))][0]
    W = World(target, os.path.join(root, "target", "tablegen", "codegen.txt"), script, os.path.join(target, "disk.so"))
    p = json.load(open(sys.argv[2]))
    bad, log, _ = W.run(p)
    same = json.loads(json.dumps(log)) == p.get("log")
    print(f"{bad[0]}: {bad[1]}" if bad else "no violation", "(exactly as recorded)" if same else "(not as recorded)")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()

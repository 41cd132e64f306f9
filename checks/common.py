"""Shared plumbing of the checks: building the executors from /repo, running
them, running TLC, writing evidence. It judges nothing: TLC does."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
WORK = os.path.join(VERIF, "work")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    pass


class Violation(Exception):
    """The property is broken; info is written out as the replay."""

    def __init__(self, what, info):
        Exception.__init__(self, what)
        self.what = what
        self.info = info


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def rng(name):
    return random.Random("%s/%s" % (SEED, name))


_dirs = {}


def workdir(name):
    """A directory of this run's own, removed at its end."""
    if name not in _dirs:
        base = os.path.join(WORK, "run")
        os.makedirs(base, exist_ok=True)
        _dirs[name] = tempfile.mkdtemp(prefix=name + "-", dir=base)
    return _dirs[name]


def cleanup():
    for d in _dirs.values():
        shutil.rmtree(d, ignore_errors=True)


def cargo_env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = os.path.join(WORK, "target")
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def tree_hash():
    """Of the sources of /repo's crates."""
    h = hashlib.sha256()
    for top in ("butte", "butte-build"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith((".rs", ".toml")):
                    h.update(p.encode())
                    with open(p, "rb") as g:
                        h.update(g.read())
    return h.hexdigest()


def cargo_build(crate):
    """Builds an executor against /repo's working tree. Cargo goes by the time of
    a change; the stamp makes sure that a change is seen whatever its time is."""
    t = time.time()
    stamp, now = os.path.join(WORK, "target", crate + ".tree"), tree_hash()
    try:
        with open(stamp) as f:
            same = f.read() == now
    except OSError:
        same = False
    if not same:
        subprocess.run(["cargo", "clean", "--offline", "--quiet", "-p", "butte"] + (["-p", "butte-build", "-p", "fe"] if crate == "fe" else []),
                       cwd=os.path.join(VERIF, crate), env=cargo_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(
        ["cargo", "build", "--offline", "--quiet"],
        cwd=os.path.join(VERIF, crate), env=cargo_env(),
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("building %s failed:\n%s" % (crate, p.stdout[-4000:]))
    with open(stamp, "w") as f:
        f.write(now)
    log("built %s in %.1f s" % (crate, time.time() - t))
    return os.path.join(WORK, "target", "debug", crate)


def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r, separators=(",", ":")))
            f.write("\n")


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(x) for x in f]


def run_exec(exe, mode, recs, name, stall=150):
    """Runs records through an executor. A record during which the process died
    (or did not end) comes back as None."""
    d = workdir("exec")
    inp, out = os.path.join(d, name + ".in"), os.path.join(d, name + ".out")
    write_ndjson(inp, recs)
    if os.path.exists(out):
        os.remove(out)
    open(out, "w").close()
    res, start = [], 0
    while True:
        p = subprocess.Popen([exe, mode, inp, out, str(start)],
                             stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=d)
        last, t = -1, time.time()
        while True:
            try:
                p.wait(timeout=2)
                break
            except subprocess.TimeoutExpired:
                n = os.path.getsize(out)
                if n != last:
                    last, t = n, time.time()
                elif time.time() - t > stall:
                    p.kill()
                    p.wait()
                    break
        err = p.stderr.read().decode(errors="replace")
        with open(out) as f:
            lines = f.read().split("\n")
        good = [x for x in lines[:-1]]
        if lines[-1] != "":       # a line cut short
            with open(out, "w") as f:
                f.write("".join(x + "\n" for x in good))
        res = [json.loads(x) if x != "null" else None for x in good]
        if p.returncode == 0:
            break
        if p.returncode == 2 or "usage:" in err:
            raise ToolError("executor: " + err[-2000:])
        # the next record killed it
        with open(out, "a") as f:
            f.write("null\n")
        start = len(good) + 1
        if start >= len(recs):
            res.append(None)
            break
        if sum(1 for r in res if r is None) > 20:
            res.append(None)
            res += [None] * (len(recs) - len(res))
            break
    os.remove(inp)
    os.remove(out)
    if len(res) != len(recs):
        raise ToolError("executor gave %d answers to %d records" % (len(res), len(recs)))
    return res


def run_par(exe, mode, recs, name, stall=60, ways=8):
    """run_exec in several processes."""
    from concurrent.futures import ThreadPoolExecutor
    workdir("exec")
    n = max(1, min(ways, len(recs) // 20))
    parts = [recs[k::n] for k in range(n)]
    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda a: run_exec(exe, mode, a[1], "%s-%d" % (name, a[0]), stall), enumerate(parts)))
    res = [None] * len(recs)
    for k, o in enumerate(outs):
        res[k::n] = o
    return res


class Tlc:
    def __init__(self):
        self.ok = False
        self.states = 0
        self.distinct = 0
        self.prints = {}
        self.bad = []
        self.text = ""
        self.wall = 0.0


def tlc(module, consts, invariants, env=None, prints=(), spec="Spec", simulate=None,
        workers=8, timeout=800, trace=False, seed=None, extra=(), properties=()):
    """Runs TLC on spec/<module>.tla. A violated invariant of a trace module is
    reported in .bad; of any other module it is an error of the specification."""
    d = workdir("tlc")
    cfg = os.path.join(d, "%s-%d.cfg" % (module, len(os.listdir(d))))
    with open(cfg, "w") as f:
        f.write("SPECIFICATION %s\n" % spec)
        if consts:
            f.write("CONSTANTS\n")
            for k, v in consts.items():
                if isinstance(v, bool):
                    v = "TRUE" if v else "FALSE"
                elif isinstance(v, str):
                    v = '"%s"' % v
                f.write("  %s = %s\n" % (k, v))
        f.write("INVARIANTS %s\n" % " ".join(invariants))
        if properties:
            f.write("PROPERTIES %s\n" % " ".join(properties))
        f.write("CHECK_DEADLOCK FALSE\n")
    meta = os.path.join(d, "meta-%d" % len(os.listdir(d)))
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-config", cfg, "-noGenerateSpecTE"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1])]
        cmd += ["-seed", str(seed if seed is not None else SEED)]
    cmd += list(extra)
    cmd.append(module + ".tla")
    e = dict(os.environ)
    e.update(env or {})
    e["JDK_JAVA_OPTIONS"] = "-Xss512m"      # of the main thread too
    t = time.time()
    r = Tlc()
    out = os.path.join(d, "out-%d" % len(os.listdir(d)))
    with open(out, "w") as f:
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC on %s did not end in %d s" % (module, timeout))
    r.wall = time.time() - t
    rest = []
    with open(out) as f:
        for line in f:
            if line.startswith('"'):
                try:
                    s = json.loads(line)
                except ValueError:
                    rest.append(line)
                    continue
                k, _, v = s.partition(" ")
                if k == "BAD":
                    r.bad.append(json.loads(v))
                else:
                    r.prints.setdefault(k, []).append(v)
            else:
                rest.append(line)
    os.remove(out)
    shutil.rmtree(meta, ignore_errors=True)
    r.text = "".join(rest)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", r.text)
    if m:
        r.states = int(m[-1][0].replace(",", ""))
        r.distinct = int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", r.text)
    if simulate and m:
        r.states = r.distinct = int(m[-1].replace(",", ""))
    r.ok = p.returncode == 0
    if not r.ok:
        if trace and p.returncode == 12 and r.bad:
            return r
        # the log has something in it the specification has no word for
        if trace and re.search(r"Attempted to|was evaluating|Error: Evaluating", r.text) and not re.search(r"StackOverflow|OutOfMemory", r.text):
            m = re.findall(r"rec = (\d+)", r.text)
            r.bad.append({"id": None, "rec": int(m[-1]) if m else None,
                          "why": "the log cannot be interpreted", "tlc": r.text[-3000:]})
            return r
        raise ToolError("TLC on %s (%s) ended with %d:\n%s" % (module, consts, p.returncode, r.text[-6000:]))
    return r


def merge_stats(st, r, kind):
    st["states"] += r.distinct
    st["transitions"] += max(0, r.states)
    st.setdefault("tlc_runs", []).append({"what": kind, "states": r.distinct, "seconds": round(r.wall, 1)})


# ------------------------------------------------------------------ findings
def known_findings(prop):
    path = os.path.join(VERIF, "known-findings.json")
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop and x["status"] == "known"]


def evidence(prop, level, coverage, wall, violations=0, assumptions=()):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
                   "level": level, "coverage": coverage, "assumptions": list(assumptions),
                   "wall_s": round(wall, 2), "violations": violations}, f, indent=1)
        f.write("\n")


def cut(x, n=1500):
    """A sample for the evidence, kept short."""
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + " ..."

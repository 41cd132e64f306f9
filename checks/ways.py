"""S04: the ways to run the compiler, and the compiler between streams that come
and go in pieces and fail."""
import hashlib, json, os, shutil, subprocess
from common import *
import syntax as sx
import semantic as sem

TEXTS = ['table Monster { hp: short = 100; name: string; }\nroot_type Monster;\n',
         'namespace a.b; enum Color: byte { Red, Green = 5 } /// doc "x" \\\\ é\ntable T { c: Color = Green; v: [T]; u: U; } union U { T }',
         'table E {}', '']
BAD = ['table A { x: Nope; }', 'table A { x: int; } }', 'table A {', 'struct S { a: int; }', 'enum E: byte { A = 300 }', 'include "x.fbs" table']
NAMES = ["schema", "a.b", "x-y_z", "CamelCase", "two words", "caf\u00e9", "v1.2.3", "fbs", "rs"]
FAKE = {"fails": "#!/bin/sh\ncat > /dev/null\nexit 1\n", "half": "#!/bin/sh\ncat > /dev/null\necho 'pub struct Half'\nexit 1\n",
        "stops": "#!/bin/sh\nexec 0<&-\necho 'pub struct Half;'\nexit 0\n"}


def plans(run, n, m):
    """The events of the source and of the sink; units made bytes."""
    rs = [dict(e, n=n * e["n"]) for e in run["h"] if e["k"] in ("r", "ri", "rf")]
    ws = [dict(e, n=m * e["n"]) for e in run["h"] if e["k"] in ("w", "wi", "wz", "wf")]
    return rs, ws, any(e["k"] == "ff" for e in run["h"])


def long(r, size):
    """A schema of about that many bytes, most of them in characters of two and three bytes, with much code."""
    out, n = [], 0
    while sum(len(x.encode()) for x in out) < size:
        n += 1
        out.append("/" * r.choice([2, 2, 2, 3]) + " " + "x" * r.randrange(4) + r.choice("é€") * r.randint(1, 3000) + "\ntable T%d { a: int = %d; b: string; }\n" % (n, n))
    return "".join(out)


def short(s):
    """What stands for a long text in a record."""
    return s if len(s) < 5 else hashlib.sha256(s.encode()).hexdigest()[:20]


def good(exe, texts):
    gen = run_par(exe, "gen", [{"id": k, "text": t} for k, t in enumerate(texts)], "gen", stall=60)
    for t, g in zip(texts, gen):
        if g is None or g["r"] != "ok":
            raise Violation("a valid schema is not compiled", {"schema": t, "answer": g})
    return [g["code"] for g in gen]


def some(exe, r, n):
    """Schemas that compile; which ones have to is for S01 to S03 to say."""
    out = []
    while len(out) < n:
        more = [sx.render(r, sem.tokens(r, sem.order(r, ds))) for ds in (sem.Schemas(r, 0).schema() for _ in range(2 * n)) if ds]
        gen = run_par(exe, "gen", [{"id": k, "text": t} for k, t in enumerate(more)], "gen", stall=60)
        good = [t for t, g in zip(more, gen) if g is not None and g["r"] == "ok"]
        if len(good) < len(more) // 4:
            raise Violation("hardly any schema is compiled", {"schema": more[0], "answer": gen[0]})
        out += good
    return out[:n]


def streams(prop, st, exe, r):
    k = 8 if THOROUGH else 1
    u = 4 if THOROUGH else 3
    t = tlc("MCCompileIO", dict(In=u, Out=u, Tries=2, Emit=True), ["Right", "Emitted"], properties=["Ends"])
    merge_stats(st, t, "MCCompileIO, texts and codes of %d pieces, exhaustive" % u)
    runs = [json.loads(x) for x in sorted(set(t.prints["RUN"]))]
    texts = list(TEXTS)
    texts += some(exe, r, 20 * k)
    codes = good(exe, texts)
    items, meta = [], []
    sizes = lambda x: max(1, -(-len(x.encode()) // u))
    for run in runs if len(runs) <= 4000 * k else r.sample(runs, 4000 * k):
        j = r.randrange(len(texts))
        text, code, kind = texts[j].encode(), codes[j], run["text"]
        if kind == "bad":
            text, code = r.choice(BAD).encode(), ""
        elif kind == "bytes":
            at = r.randint(0, len(text))
            text, code = text[:at] + r.choice([b"\xff", b"\xc3", b"\xe2\x88", b"\xed\xa0\x80"]) + (b"\n" + text[at:]), ""
        rs, ws, ff = plans(run, max(1, -(-len(text) // u)), sizes(code))
        items.append(dict(id=0, bytes=list(text), rs=rs, ws=ws, ff=ff, ugly=True))
        meta.append((kind, len(text), code))
    # and with pieces of any size
    for _ in range(1500 * k):
        j = r.randrange(len(texts))
        text, code = texts[j].encode(), codes[j]
        step = r.choice([1, 2, 3, 7, 31, 33, 1000])
        cut = lambda key, total, extra: [dict(k=r.choice(extra) if r.random() < 0.1 else key, n=r.randint(1, step)) for _ in range(min(120, r.randint(0, 3 * total // step + 2)))]
        rs = cut("r", len(text), ["ri"] if r.random() < 0.7 else ["ri", "rf"])
        ws = cut("w", len(code.encode()), ["wi"] if r.random() < 0.7 else ["wi", "wf", "wz"])
        items.append(dict(id=0, bytes=list(text), rs=rs, ws=ws, ff=r.random() < 0.1, ugly=True))
        meta.append(("good", len(text), code))
    # long texts, arriving as they would through a pipe or a buffer
    big = [long(r, r.choice([3000, 9000, 20000, 70000])) for _ in range(4 * k)]
    for text, code in zip(big, good(exe, big)):
        for step in (0, 4095, 4096, 8192, 65536, r.randint(500, 70000)):
            cut = lambda key, total, extra: [dict(k=extra if r.random() < 0.1 else key, n=step) for _ in range(total // step + 3)] if step else []
            text_ = text.encode()
            items.append(dict(id=0, bytes=list(text_), rs=cut("r", len(text_), "ri"), ws=cut("w", len(code.encode()), "wi"), ff=False, ugly=True))
            meta.append(("good", len(text_), code))
    recs = []
    for n, (x, (kind, size, code), it) in enumerate(zip(run_par(exe, "io", items, "io", stall=60), meta, items)):
        if x is None:
            x = {"ev": [{"k": "abort", "n": 0}], "took": ""}
        recs.append({"id": n, "text": kind, "in": size, "out": len(code.encode()), "same": code.encode().hex().startswith(x["took"]), "ev": x["ev"]})
    for lo in range(0, len(recs), 3000):
        path = os.path.join(workdir("logs"), "io.ndjson")
        write_ndjson(path, recs[lo:lo + 3000])
        t = tlc("CompileTrace", {}, ["Conforms"], env={"TRACE": path}, trace=True)
        merge_stats(st, t, "CompileTrace, %d runs" % len(recs[lo:lo + 3000]))
        st["traces_validated_against_impl"] += len(recs[lo:lo + 3000])
        if t.bad:
            b = t.bad[0]
            n = b["id"] if b.get("id") is not None else lo + (b.get("rec") or 1) - 1
            raise Violation("the compiler between a source and a sink does not behave as specified",
                            {"schema": bytes(items[n]["bytes"]).decode(errors="replace")[:3000], "source": cut_(items[n]["rs"]), "sink": cut_(items[n]["ws"]), "flush fails": items[n]["ff"], "run": cut_(recs[n])})
    st["samples"].append(cut_(recs[0]))


def cut_(x):
    return cut(x, 2500)


def rustfmt(d, code):
    p = subprocess.run(["rustfmt", "--edition", "2018", "--config", "normalize_doc_attributes=true"], cwd=d, input=code.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ToolError("rustfmt: " + p.stderr.decode(errors="replace")[-2000:])
    return p.stdout.decode()


def one(exe, base, n, way, x, texts, name):
    """Runs one way in one situation, in a directory of its own."""
    d = os.path.join(base, "w%d" % n)
    for s in ("in.d", "out", "bin"):
        os.makedirs(os.path.join(d, s))
    env = dict(os.environ)
    env.pop("OUT_DIR", None)
    if x["fmt"] != "real":
        env["PATH"] = os.path.join(d, "bin")
        if x["fmt"] in FAKE:
            p = os.path.join(d, "bin", "rustfmt")
            with open(p, "w") as f:
                f.write(FAKE[x["fmt"]].replace("cat", "/bin/cat"))
            os.chmod(p, 0o755)
    src = os.path.join(d, "in.d", name + ".fbs")
    text = texts[x["text"]]
    if x["inp"] == "there":
        with open(src, "wb") as f:
            f.write(text)
    elif x["inp"] == "dir":
        os.makedirs(src)
    out = os.path.join(d, "out", name + ".rs" if way["kind"] == "path" else "code")
    if x["outp"] == "old":
        with open(out, "w") as f:
            f.write("// old\n" * 20000)
    elif x["outp"] == "full":
        out = "/dev/full"
    elif x["outp"] == "nodir":
        out = os.path.join(d, "nowhere", os.path.basename(out))
    stdin, stdout, cmd, data = subprocess.DEVNULL, subprocess.DEVNULL, None, None
    if way["kind"] == "cli":
        cmd = [os.path.join(os.path.dirname(exe), "butte-cli")] + (["-u"] if way["ugly"] else [])
        if way["in"] == "file":
            cmd.append(src)
        elif x["inp"] == "there" and n % 2:
            data = text
        else:
            stdin = open(src, "rb")
        if way["out"] == "file":
            cmd.append(out)
        else:
            stdout = open(out, "wb")
    elif way["kind"] == "path":
        env["OUT_DIR"] = os.path.dirname(out)
        cmd = [exe, "way", "path", src]
    else:
        cmd = [exe, "way", "generic", src, out, "ugly" if way["ugly"] else "pretty"]
    try:
        feed = {"stdin": stdin} if data is None else {"input": data}
        rc = subprocess.run(cmd, env=env, cwd=d, stdout=stdout, stderr=subprocess.DEVNULL, timeout=120, **feed).returncode
    except subprocess.TimeoutExpired:
        rc = -1
    for f in (stdin, stdout):
        if f != subprocess.DEVNULL:
            f.close()
    if x["outp"] == "full" or not os.path.isfile(out):
        got = "none"
    else:
        with open(out, "rb") as f:
            got = f.read().decode(errors="replace")
    if got == "// old\n" * 20000:
        got = "old"
    shutil.rmtree(d)
    return {0: True, 1: False}.get(rc, "other: %d" % rc), got


def allways(prop, st, exe, r):
    from concurrent.futures import ThreadPoolExecutor
    t = tlc("CompileWays", dict(Mode="ways"), ["Emitted"])
    merge_stats(st, t, "CompileWays, all ways and situations")
    ws = [json.loads(x) for x in sorted(set(t.prints["WAY"]))]
    base = workdir("ways")
    todo, recs = [], []
    for _ in range(6 if THOROUGH else 1):
        texts = {"good": TEXTS[r.randrange(3)].encode(), "other": (some(exe, r, 4)[0] + "\nnamespace long;\n" + long(r, r.choice([3000, 30000, 80000]))).encode(), "large": ("".join("table L%d { a: int = %d; b: string; }\n" % (n, n) for n in range(200))).encode(), "bad": r.choice(BAD).encode(), "bytes": b"table A {} // \xff\xfe\n table B {}"}
        code = dict(zip(("good", "other", "large"), good(exe, [texts[k].decode() for k in ("good", "other", "large")])))
        pretty = {k: rustfmt(base, v) for k, v in code.items()}
        for w in ws:
            todo.append((w, texts, code, pretty, NAMES[r.randrange(3) if w["way"]["kind"] != "path" else len(todo) % len(NAMES)]))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: one(exe, base, a[0], a[1][0]["way"], a[1][0]["x"], a[1][1], a[1][4]), enumerate(todo)))
    for n, ((w, texts, code, pretty, name), (ok, got)) in enumerate(zip(todo, res)):
        recs.append({"id": n, "way": w["way"], "x": w["x"], "ok": ok, "out": short(got), "code": short(code.get(w["x"]["text"], "")), "pretty": short(pretty.get(w["x"]["text"], ""))})
    path = os.path.join(workdir("logs"), "ways.ndjson")
    write_ndjson(path, recs)
    t = tlc("CompileWays", dict(Mode="trace"), ["Conforms"], env={"TRACE": path}, trace=True)
    merge_stats(st, t, "CompileWays, %d runs" % len(recs))
    st["traces_validated_against_impl"] += len(recs)
    if t.bad:
        b = t.bad[0]
        n = b["id"] if b.get("id") is not None else (b.get("rec") or 1) - 1
        raise Violation("a way to run the compiler does not do what the specification says",
                        {"way": recs[n]["way"], "situation": recs[n]["x"], "succeeded": recs[n]["ok"], "output": res[n][1][:2000], "expected code": todo[n][2].get(recs[n]["x"]["text"], "")[:2000],
                         "schema": todo[n][1][recs[n]["x"]["text"]].decode(errors="replace")[:3000]})
    st["ways and situations"] = len(ws)


def put(exe, base, n, c, text, pretty):
    """Compiles a schema file by its path, in a directory of its own."""
    d = os.path.join(base, "n%d" % n)
    name = ".".join(c["parts"])
    cwd = os.path.join(d, "c.wd")
    sub = {"bare": ".", "below": "in.d/x", "dot": "./in.d", "up": "../up.d", "absolute": "in.d"}[c["where"]]
    os.makedirs(os.path.join(cwd, sub))
    with open(os.path.join(cwd, sub, name), "wb") as f:
        f.write(text)
    out = os.path.join(d, {"plain": "out", "dotted": "o.ut.d", "relative": "c.wd/o"}[c["dir"]])
    os.makedirs(out)
    src = {"bare": name, "absolute": os.path.join(cwd, sub, name)}.get(c["where"], os.path.join(sub, name))
    before = {os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs}
    try:
        rc = subprocess.run([exe, "way", "path", src], env=dict(os.environ, OUT_DIR="o" if c["dir"] == "relative" else out), cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=120).returncode
    except subprocess.TimeoutExpired:
        rc = -1
    made = sorted({os.path.join(a, f) for a, _, fs in os.walk(d) for f in fs} - before)
    whole = True
    for m in made:
        with open(m, "rb") as f:
            whole = whole and f.read().decode(errors="replace") == pretty
    # a file elsewhere than in the output directory keeps its path, so that it is no name at all
    made = [os.path.relpath(m, out) for m in made]
    with open(os.path.join(cwd, sub, name), "rb") as f:
        whole = whole and f.read() == text
    shutil.rmtree(d)
    return {"id": n, "parts": c["parts"], "ok": rc == 0, "made": [m.split(".") for m in made], "whole": whole}


def named(prop, st, exe, r):
    from concurrent.futures import ThreadPoolExecutor
    t = tlc("CompileWays", dict(Mode="names"), ["Emitted"])
    merge_stats(st, t, "CompileWays, all names of schema files")
    cs = [json.loads(x) for x in sorted(set(t.prints["NAME"]))]
    base = workdir("ways")
    pretty = rustfmt(base, good(exe, [TEXTS[2]])[0])
    # every shape of a name in every place
    shape = {}
    for c in r.sample(cs, len(cs)):
        shape.setdefault((len(c["parts"]), c["parts"][-1], c["where"]), []).append(c)
    todo = cs if THOROUGH else [c for k in sorted(shape) for c in shape[k][:2]]
    with ThreadPoolExecutor(8) as ex:
        recs = list(ex.map(lambda a: put(exe, base, a[0], a[1], TEXTS[2].encode(), pretty), enumerate(todo)))
    path = os.path.join(workdir("logs"), "placed.ndjson")
    write_ndjson(path, recs)
    t = tlc("CompileWays", dict(Mode="placed"), ["Conforms"], env={"TRACE": path}, trace=True)
    merge_stats(st, t, "CompileWays, %d names" % len(recs))
    st["traces_validated_against_impl"] += len(recs)
    if t.bad:
        b = t.bad[0]
        n = b["id"] if b.get("id") is not None else (b.get("rec") or 1) - 1
        raise Violation("the code of a schema file is not put under the name its path says", {"case": todo[n], "result": recs[n]})
    st["names of schema files"] = len(todo)


def s04(prop, st):
    r = rng(prop)
    exe = cargo_build("fe")
    streams(prop, st, exe, r)
    allways(prop, st, exe, r)
    named(prop, st, exe, r)

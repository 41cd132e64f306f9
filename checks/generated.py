"""Checks of generated code (G01 to G05, G07): schemas are compiled by the real
compiler, the code is compiled with a driver, run on values and buffers, and the
log judged by TLC."""
import collections, json, os, re
from common import *
import syntax as sx
import gendrive as gd
import genschema as gs
import semantic as sem
import frontend

STYLES = [dict(rev=a, trim=b, after=c, force=d, junk=j, sp=s) for a in (False, True) for b in (False, True) for c in (False, True)
          for d in (False, True) for j in (0, 170) for s in (False, True)]


class Lab:
    """Schemas, the code generated from them and its driver."""

    def __init__(self, prop, st, tokss):
        self.prop, self.st, self.tokss = prop, st, tokss
        r = rng(prop + "/render")
        self.texts = [sx.plain(r, t) for t in tokss]
        self.models = [gd.Model(t) for t in tokss]
        fe = cargo_build("fe")
        gen = run_par(fe, "gen", [{"id": k, "text": t} for k, t in enumerate(self.texts)], "gen", stall=60)
        for k, g in enumerate(gen):
            if g is None or g["r"] != "ok":
                raise Violation("a valid schema is not compiled", {"schema": self.texts[k], "answer": g})
        self.codes = [g["code"] for g in gen]
        drivers = [gd.driver("s%d" % k, m) for k, m in enumerate(self.models)]
        rc, out, self.exes, self.where = gd.compile_all(self.codes, drivers)
        if rc != 0:
            self.blame(out, drivers)
        st["schemas compiled"] = st.get("schemas compiled", 0) + len(tokss)
        self.dir = workdir("logs")
        self.spath = os.path.join(self.dir, "schemas-%d.ndjson" % len(os.listdir(self.dir)))
        write_ndjson(self.spath, [{"toks": t} for t in tokss])
        self.recs = []

    def blame(self, out, drivers):
        tool(out)
        for k, c in enumerate(self.codes):
            rc, o, _, _ = gd.compile_all([c.replace("mod s0", "mod s0")], [gd.driver("s0", self.models[k])], check=True)
            if rc != 0:
                tool(o)
                raise Violation("the code generated for a schema does not compile (with the driver that uses its interface)",
                                {"schema": self.texts[k], "errors": o[:3000]})
        raise ToolError("compiling failed:\n" + out[-3000:])

    def ops(self, ops):
        """ops: records with s; in order of the given, what the drivers said."""
        by = collections.defaultdict(list)
        for n, o in enumerate(ops):
            by[self.where[o["s"]]].append(n)
        res = [None] * len(ops)
        from concurrent.futures import ThreadPoolExecutor
        workdir("exec")

        def go(w):
            for n, x in zip(by[w], run_exec(self.exes[w], "go", [ops[n] for n in by[w]], "drv%d" % w, stall=60)):
                res[n] = x
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(go, list(by)))
        return [x if x is not None else {"r": "abort"} for x in res]

    def encode(self, cases):
        """cases: {s, t, val, o}; the specification's bytes for them."""
        path = os.path.join(self.dir, "enc.ndjson")
        write_ndjson(path, [dict(c, id=k, s=c["s"] + 1, t=c["t"].split(".")) for k, c in enumerate(cases)])
        t = tlc("GenEncode", {}, ["Schemas", "Emitted"], env={"TRACE": path, "SCHEMAS": self.spath})
        merge_stats(self.st, t, "GenEncode, %d values" % len(cases))
        out = [None] * len(cases)
        for x in t.prints["ENC"]:
            x = json.loads(x)
            out[x["id"]] = x["b"]
        return out

    def log(self, **rec):
        rec["id"] = len(self.recs)
        rec["s"] += 1
        rec["t"] = rec["t"].split(".")
        if "ws" in rec:
            rec["ws"] += 1
            rec["wt"] = rec["wt"].split(".")
        self.recs.append(rec)

    def judge(self):
        kinds = collections.Counter(x["k"] for x in self.recs)
        for lo in range(0, len(self.recs), 12000):
            part = self.recs[lo:lo + 12000]
            path = os.path.join(self.dir, "gen.ndjson")
            write_ndjson(path, part)
            t = tlc("GenTrace", {}, ["Schemas", "Conforms"], env={"TRACE": path, "SCHEMAS": self.spath}, trace=True)
            merge_stats(self.st, t, "GenTrace, %d records" % len(part))
            self.st["traces_validated_against_impl"] += len(part)
            if t.bad:
                b = t.bad[0]
                x = self.recs[b["id"]] if b.get("id") is not None else (part[b["rec"] - 1] if b.get("rec") else None)
                info = {"verdict": b}
                if x is not None:
                    info["schema"] = self.texts[x["s"] - 1]
                    if "ws" in x and x["ws"] != x["s"]:
                        info["writer's schema"] = self.texts[x["ws"] - 1]
                    info["record"] = cut(x, 6000)
                raise Violation("what the generated code did is not what the specification says", info)
        for k in kinds:
            self.st["records " + k] = self.st.get("records " + k, 0) + kinds[k]
        if self.recs:
            self.st["samples"].append(cut({"schema": self.texts[self.recs[len(self.recs) // 2]["s"] - 1], "record": self.recs[len(self.recs) // 2]}, 1500))
        self.recs = []


def tool(out):
    if re.search(r"No space left|signal: 9|SIGKILL|memory allocation|failed to (write|load|open)|Blocking waiting", out) and "error[E" not in out:
        raise ToolError("compiling failed:\n" + out[-3000:])


def key(fs):
    return "M" + "x".join(map(str, fs))


def group(f, maxf):
    """The schema that a table is in, with all it was or becomes."""
    return f[0] if maxf > 1 else f[0] // 12


def scope(st, maxf, part, r, most, harm=False):
    """The model's tables, grouped into schemas; its cases."""
    t = tlc("MCGen", dict(MaxF=maxf, Emit=True, Part=part, Harm=harm), ["Reads", "Laid", "Hurts", "Emitted", "EmittedToks"])
    merge_stats(st, t, "MCGen %s to %d fields, exhaustive" % (part, maxf))
    toks = json.loads(t.prints["TOKS"][0])
    cases = [json.loads(x) for x in sorted(set(t.prints["HURT" if harm else "CASE"]))]
    allfs = sorted(set(tuple(c["fs"]) for c in cases))
    full = [f for f in allfs if len(f) == maxf]
    if len(full) > most:
        full = r.sample(full, most)
    keep = set(f[:n] for f in full for n in range(maxf + 1))
    groups = collections.defaultdict(set)
    for f in keep:
        if f:
            for n in range(len(f) + 1):
                groups[group(f, maxf)].add(f[:n])
    tokss, place = [], {}
    for g in sorted(groups):
        ts = list(toks["aux"])
        for f in sorted(groups[g]):
            place[(g, f)] = (len(tokss), key(f))
            ts += [sx.w("table"), sx.w(key(f)), sx.p("{")]
            for k, q in enumerate(f):
                ts += [sx.w("f%d" % (k + 1)), sx.p(":")] + toks["f"][q - 1] + [sx.p(";")]
            ts.append(sx.p("}"))
        tokss.append(ts)
    return tokss, place, [c for c in cases if tuple(c["fs"]) in keep and c["fs"]]


def expressible(m, t, val):
    """Arguments without a default must be given in full."""
    d = m.by[t]
    if not m.has_default(d):
        have = set(x["id"] for x in val["f"])
        if any(f["scalar"] and f["id"] not in have for f in d["fields"]):
            return False
    return True


def probes(r, base, vs=()):
    """Values to ask an enum of this type for."""
    lo, hi = gs.limits(base)
    ps = set(vs) | {x + y for x in vs for y in (-1, 1)} | set(range(-3, 13)) | {lo, hi, lo + 1, hi - 1, lo + 2} | {r.randint(lo, hi) for _ in range(8)}
    ps |= {x % 256 for x in vs} | {x % 65536 for x in vs} | {x + 256 for x in vs}
    if hi - lo < 300:
        ps = set(range(lo, hi + 1))
    return [gs.le(base, x) for x in sorted(ps) if lo <= x <= hi]


def from_model(prop, st, r, most, per, maxf=2, part="all"):
    """Cases of the model on the generated code: its buffers are read by every
    version; its values are written, and read by every version."""
    tokss, place, cases = scope(st, maxf, part, r, most)
    lab = Lab(prop, st, tokss)
    cases = cases if len(cases) <= per else r.sample(cases, per)
    ops, meta = [], []
    for c in cases:
        g, w = group(c["fs"], maxf), tuple(c["fs"][:c["w"]])
        s, wt = place[(g, w)]
        for n in sorted(set([len(c["fs"]), c["w"], 0, max(0, c["w"] - 1)])):
            ops.append(dict(op="read", s=s, t=place[(g, tuple(c["fs"][:n]))][1], b=c["b"], sp=c["sp"]))
            meta.append((c, s, wt))
    for o, x, (c, s, wt) in zip(ops, lab.ops(ops), meta):
        lab.log(k="rd", s=s, t=o["t"], ws=s, wt=wt, val=c["val"], out=x)
    ops = []
    for c in cases:
        g, w = group(c["fs"], maxf), tuple(c["fs"][:c["w"]])
        s, wt = place[(g, w)]
        if expressible(lab.models[s], wt, c["val"]):
            ops.append(dict(op="build", s=s, t=wt, val=c["val"], sp=c["sp"], c=c))
    built = lab.ops([{k: v for k, v in o.items() if k != "c"} for o in ops])
    reads = []
    for o, x in zip(ops, built):
        lab.log(k="wr", s=o["s"], t=o["t"], val=o["val"], sp=o["sp"], out=x)
        if x["r"] == "ok":
            c = o["c"]
            for n in sorted(set([len(c["fs"]), c["w"], 0])):
                reads.append((o, dict(op="read", s=o["s"], t=place[(group(c["fs"], maxf), tuple(c["fs"][:n]))][1], b=x["b"], sp=o["sp"])))
    for (o, q), x in zip(reads, lab.ops([q for _, q in reads])):
        lab.log(k="rd", s=q["s"], t=q["t"], ws=o["s"], wt=o["t"], val=o["val"], out=x)
    for s, m in enumerate(lab.models):
        ens = [dict(op="en", s=s, t=".".join(d["path"]), p=probes(r, d.get("base", "ubyte"))) for d in m.decls if d["k"] != "table"] if s % 4 == 0 else []
        for o, x in zip(ens, lab.ops(ens)):
            lab.log(k="en", s=s, t=o["t"], out=x)
    tabs = [dict(op=k, s=s, t=t) for s, t in sorted(set(place.values())) for k in ("vt", "bare")]
    for o, x in zip(tabs, lab.ops(tabs)):
        lab.log(k=o["op"], s=o["s"], t=o["t"], out=x)
    lab.judge()


def from_harm(prop, st, r, most, per):
    """The model's damaged buffers."""
    tokss, place, cases = scope(st, 2, "all", r, most, harm=True)
    lab = Lab(prop, st, tokss)
    cases = cases if len(cases) <= per else r.sample(cases, per)
    ops = []
    for c in cases:
        s, t = place[(group(c["fs"], 2), tuple(c["fs"]))]
        ops.append(dict(op="read", s=s, t=t, b=c["b"], sp=c["sp"], dep=4))
    for o, x in zip(ops, lab.ops(ops)):
        lab.log(k="by", s=o["s"], t=o["t"], b=o["b"], sp=o["sp"], dep=o["dep"], out=x)
    lab.judge()


def vtables(b):
    """Places of what may be tables, with those of their vtables."""
    out = []
    for p in range(0, len(b) - 3, 4):
        v = p - int.from_bytes(bytes(b[p:p + 4]), "little", signed=True)
        if v != p and 0 <= v <= len(b) - 4:
            n = b[v] + 256 * b[v + 1]
            if n % 2 == 0 and 4 <= n <= 200 and v + n <= len(b) and b[v + 2] + 256 * b[v + 3] <= len(b) - p:
                out.append((p, v, n))
    return out


def unsettle(r, x):
    """The bytes with a change to a vtable."""
    vs = vtables(x)
    if not vs:
        return x
    p, v, n = r.choice(vs)
    u16 = lambda at, k: x.__setitem__(slice(at, at + 2), list((k % 65536).to_bytes(2, "little")))
    slot = lambda: v + 4 + 2 * r.randrange((n - 4) // 2)
    q = r.random()
    if n > 4 and q < 0.4:
        u16(slot(), 0)
    elif n > 4 and q < 0.6:
        a, b = slot(), slot()
        x[a:a + 2], x[b:b + 2] = x[b:b + 2], x[a:a + 2]
    elif n > 4 and q < 0.75:
        u16(slot(), r.choice([1, 2, 3, 4, 5, 6, 8, 12, 255, 256, 65535, len(x) - p, len(x) - p - 1, len(x) - p - 4, len(x) - p + 1]))
    elif q < 0.9:
        u16(v, r.choice([0, 1, 2, 3, 4, 5, 6, n - 2, n - 1, n + 1, n + 2, n + 20, 65535]))
    else:
        u16(v + 2, r.choice([0, 4, 65535]))
    return x


class Random:
    """Random schemas in versions, and what can be done with them."""

    def __init__(self, prop, st, r, n, versions=2, wide=0):
        self.r, self.st = r, st
        self.fam = []
        tokss = []
        k = 0
        while k <= n:
            s = gs.Schema.every(r) if k == n else gs.Schema(r, wide=0 if k >= wide else 1 if k else 2)
            if not s.tables():
                continue
            vs = [s] + [s.cut() for _ in range(versions - 1)]
            self.fam.append([(len(tokss) + q, v) for q, v in enumerate(vs)])
            tokss += [v.tokens() for v in vs]
            k += 1
        self.lab = Lab(prop, st, tokss)

    def values(self, n):
        """(family, version, table, value) of values to write."""
        r = self.r
        out = []
        f = self.fam[-1]        # every type of field
        for v in range(len(f)):
            for j in f[v][1].tables():
                out += [(f, v, j, f[v][1].table(j)) for _ in range(3)]
        for _ in range(n):
            f = r.choice(self.fam)
            v = r.randrange(len(f))
            j = r.choice(f[v][1].tables())
            out.append((f, v, j, f[v][1].table(j)))
        return out

    def roundtrip(self, n, cross, wire=True):
        r, lab = self.r, self.lab
        todo = self.values(n)
        ops = [dict(op="build", s=f[v][0], t=".".join(f[v][1].path(j)), val=val, sp=r.random() < 0.3, cap=r.choice([0, 1, 16, 1000]),
                    **({"fid": "ABCD"} if r.random() < 0.2 else {})) for f, v, j, val in todo]
        built = lab.ops(ops)
        reads = []
        for (f, v, j, val), o, x in zip(todo, ops, built):
            if wire or x["r"] != "ok":
                lab.log(k="wr", s=o["s"], t=o["t"], val=val, sp=o["sp"], out=x)
            if x["r"] == "ok":
                for q in (range(len(f)) if cross else [v]):
                    reads.append((o, dict(op="read", s=f[q][0], t=o["t"], b=x["b"], sp=o["sp"])))
        for (o, q), x in zip(reads, lab.ops([q for _, q in reads])):
            lab.log(k="rd", s=q["s"], t=q["t"], ws=o["s"], wt=o["t"], val=o["val"], out=x)

    def foreign(self, n, cross):
        """Buffers of the specification."""
        r, lab = self.r, self.lab
        todo = self.values(n)
        cs = [dict(s=f[v][0], t=".".join(f[v][1].path(j)), val=val, o=r.choice(STYLES)) for f, v, j, val in todo]
        reads = []
        for (f, v, j, val), c, b in zip(todo, cs, lab.encode(cs)):
            for q in (range(len(f)) if cross else [v]):
                reads.append((c, dict(op="read", s=f[q][0], t=c["t"], b=b, sp=c["o"]["sp"])))
        for (c, q), x in zip(reads, lab.ops([q for _, q in reads])):
            lab.log(k="rd", s=q["s"], t=q["t"], ws=c["s"], wt=c["t"], val=c["val"], out=x)

    def hostile(self, n, damage, op="read", kind="by"):
        """Buffers with unknown members in them; with damage, other bytes too."""
        r, lab = self.r, self.lab
        todo = self.values(n)
        cs = [dict(s=f[v][0], t=".".join(f[v][1].path(j)), val=f[v][1].hostile(j, val), o=r.choice(STYLES)) for f, v, j, val in todo]
        ops = []
        for (f, v, j, val), c, b in zip(todo, cs, lab.encode(cs)):
            for k in range(4 if damage else 1):
                x = list(b)
                if damage:
                    for _ in range(r.choice([1, 1, 2, 4])):
                        q = r.random()
                        if q < 0.35:
                            x = unsettle(r, x)
                        elif q < 0.7 and x:
                            x[r.randrange(len(x))] = r.choice([0, 1, 2, 4, 8, 127, 128, 254, 255, r.randint(0, 255)])
                        elif q < 0.85:
                            x = x[:r.randrange(len(x) + 1)]
                        elif len(x) >= 4:
                            at = r.randrange(len(x) // 4) * 4
                            x[at:at + 4] = list(r.choice([0, 1, 4, 8, len(x), len(x) - at, 0xFFFFFFFF, 0x80000000, 0x7FFFFFFF]).to_bytes(4, "little"))
                # the same bytes as another table of the schema
                t = ".".join(f[v][1].path(r.choice(f[v][1].tables()))) if damage and r.random() < 0.2 else c["t"]
                ops.append(dict(op=op, s=c["s"], t=t, b=x, sp=c["o"]["sp"] if r.random() < 0.95 else not c["o"]["sp"], dep=3))
        for o, x in zip(ops, lab.ops(ops)):
            lab.log(k=kind, s=o["s"], t=o["t"], b=o["b"], sp=o["sp"], dep=o["dep"], out=x)

    def held(self, n):
        """Written buffers, held in several ways."""
        r, lab = self.r, self.lab
        todo = self.values(n)
        cs = [dict(s=f[v][0], t=".".join(f[v][1].path(j)), val=val, o=r.choice(STYLES)) for f, v, j, val in todo]
        ops = [dict(op="hold", s=c["s"], t=c["t"], b=b, sp=c["o"]["sp"], dep=5) for c, b in zip(cs, lab.encode(cs))]
        for o, x in zip(ops, lab.ops(ops)):
            lab.log(k="hold", s=o["s"], t=o["t"], b=o["b"], sp=o["sp"], out=x)

    def enums(self, kind="en"):
        r, lab = self.r, self.lab
        ops = []
        for f in self.fam:
            for s, v in f:
                for t in v.types:
                    if t["k"] not in ("enum", "union") or not t.get("m"):
                        continue
                    base = t.get("base", "ubyte")
                    ops.append(dict(op="en", s=s, t=".".join(t["ns"] + [t["id"]]), p=probes(r, base, [m[1] for m in t["m"]])))
        for o, x in zip(ops, lab.ops(ops)):
            lab.log(k=kind, s=o["s"], t=o["t"], out=x)

    def tables(self):
        ops = [dict(op=k, s=s, t=".".join(v.path(j))) for f in self.fam for s, v in f for j in v.tables() for k in ("vt", "bare")]
        again = []
        for o, x in zip(ops, self.lab.ops(ops)):
            self.lab.log(k=o["op"], s=o["s"], t=o["t"], out=x)
            if o["op"] == "bare" and x["r"] == "ok":
                again.append(dict(op="read", s=o["s"], t=o["t"], b=x["b"], sp=False, dep=2))
        for o, x in zip(again, self.lab.ops(again)):
            self.lab.log(k="by", s=o["s"], t=o["t"], b=o["b"], sp=False, dep=2, out=x)


def g01(prop, st):
    r = rng(prop)
    k = 8 if THOROUGH else 1
    from_model(prop, st, r, 400 if THOROUGH else 60, 2500 * k)
    from_model(prop, st, r, 1000, 4000, 1, "types")
    for _ in range(k):
        x = Random(prop, st, r, 24, versions=1, wide=2)
        x.enums()
        x.tables()
        x.roundtrip(2500, False)
        x.foreign(1500, False)
        x.lab.judge()


def g02(prop, st):
    r = rng(prop)
    k = 8 if THOROUGH else 1
    from_model(prop, st, r, 400 if THOROUGH else 60, 2500 * k)
    for _ in range(k):
        x = Random(prop, st, r, 30, versions=1, wide=1)
        x.tables()
        x.roundtrip(5000, False, wire=False)
        x.lab.judge()


def members(prop, st, r, n, kind):
    """The model's enums and unions, 40 to a schema, asked for all of one byte and more."""
    ds = frontend.members(st, r, n, True)
    tokss = []
    for lo in range(0, len(ds), 40):
        toks = frontend.tables(["Ma", "Mb", "Mc", "Md"])
        for q, x in enumerate(ds[lo:lo + 40]):
            x = [dict(t) for t in x]
            x[1]["s"] = "Xx%dx" % q
            toks = toks + x if q % 2 else x + toks
        tokss.append(toks)
    lab = Lab(prop, st, tokss)
    ops = [dict(op="en", s=s, t=d["path"][0], p=probes(r, d.get("base", "ubyte"))) for s, m in enumerate(lab.models) for d in m.decls if d["k"] != "table"]
    for o, x in zip(ops, lab.ops(ops)):
        lab.log(k=kind, s=o["s"], t=o["t"], out=x)
    lab.judge()


def g08(prop, st):
    r = rng(prop)
    k = 8 if THOROUGH else 1
    frontend.documented(prop, st, r, k)
    members(prop, st, r, 400 * k, "help")
    for _ in range(k):
        x = Random(prop, st, r, 24, versions=1)
        x.enums("help")
        x.held(1200)
        x.hostile(200, True, "hold", "hold")
        x.lab.judge()


# names of every kind in every place
ODD = ["type", "self", "Self", "match", "async", "try", "union", "gen", "dyn", "final", "box", "super", "crate", "where", "fooBar", "HTTPServer", "x_", "_1a",
       "value", "Error", "Inner", "e", "args", "builder", "fbb", "buf", "loc", "new", "finish", "table", "Table", "required", "TryFrom", "Vec", "Vector",
       "default", "f_1", "F2", "aB1c", "III", "follow", "push", "from", "o", "x", "string_", "root_type", "b", "a", "Item", "Args"]
DOCS = [' "quoted" \\\\ back \\n slash', " é ∑ 漢", "", " ends with \\\\", ' "#', " */ /* ", " {} #![x] //", "!", "\t"]


def odd(r):
    """A random schema whose names and comments are unusual."""
    s = gs.Schema(r, wide=r.random() < 0.02)
    used = {}

    def new(old):
        if old not in used:
            used[old] = r.choice(ODD) if r.random() < 0.7 else old
        return used[old]
    for t in s.types:
        t["ns"] = [new(x) for x in t["ns"]]
        t["id"] = new(t["id"]) if r.random() < 0.8 else t["id"]
        if t["k"] == "table":
            for f in t["f"]:
                f[0] = new(f[0])
                if f[2][0] == "enum" and f[5] is not None:
                    f[3] = [sx.w(new(f[5]))]
        elif t["k"] == "enum":
            for m in t["m"]:
                m[0] = new(m[0])
    toks = s.tokens()
    for t in toks:
        if t["t"] == "d":
            t["s"] = r.choice(DOCS)
    return toks


def compiles(codes):
    """Which of these compile; the first error of each that does not."""
    left = [k for k, c in enumerate(codes) if c is not None]
    bad = {}
    for _ in range(40):
        rc, out, _, _ = gd.compile_all([codes[k] for k in left], None, check=True)
        if rc == 0:
            return bad
        hit = {}
        for m in re.finditer(r"^(error[^\n]*)\n\s*--> src/s(\d+)\.rs", out, re.M):
            hit.setdefault(left[int(m.group(2))], m.group(1))
        if not hit:
            for m in re.finditer(r"--> src/s(\d+)\.rs", out):
                hit.setdefault(left[int(m.group(1))], "see the compiler's output")
        if not hit:
            raise ToolError("compiling failed:\n" + out[-4000:])
        bad.update(hit)
        left = [k for k in left if k not in hit]
    raise ToolError("compile errors without an end")


def g03(prop, st):
    r = rng(prop)
    k = 5 if THOROUGH else 1
    tokss = []
    for mode in ("single", "second", "pairs"):
        t = tlc("MCNames", dict(Mode=mode, Emit=True), ["Sound", "Usable", "Stable", "Emitted"])
        merge_stats(st, t, "MCNames %s, exhaustive" % mode)
        xs = [json.loads(x) for x in sorted(set(t.prints["SENT"]))]
        tokss += frontend.pick(r, xs, 20000 if THOROUGH else 2500)
    tokss += [x["toks"] for x in frontend.pick(r, frontend.schemas(st, ["ref", "ns", "rpc", "meth"], "accepted"), 1500 * k)]
    tokss += [r.choice(g) for g in frontend.paths(st, r, 400 * k)]
    tokss += [odd(r) for _ in range(600 * k)]
    for _ in range(600 * k):
        tokss.append(sem.tokens(r, sem.order(r, sem.Schemas(r, 0).schema(rpc=r.random() < 0.3))))
    texts = [sx.plain(r, t) for t in tokss]
    gen = run_par(cargo_build("fe"), "gen", [{"id": n, "text": t} for n, t in enumerate(texts)], "gen", stall=60)
    bad = {}
    codes = [g["code"] if g is not None and g["r"] == "ok" else None for g in gen]
    for lo in range(0, len(codes), 6000):
        for n, e in compiles(codes[lo:lo + 6000]).items():
            bad[lo + n] = e
    recs = [{"id": n, "toks": tokss[n], "r": "abort" if g is None else g["r"], "c": n not in bad} for n, g in enumerate(gen)]
    st["schemas compiled"] = sum(c is not None for c in codes)
    clear = 0
    for lo in range(0, len(recs), 5000):
        path = os.path.join(workdir("logs"), "names.ndjson")
        write_ndjson(path, recs[lo:lo + 5000])
        t = tlc("NamesTrace", {}, ["Conforms", "Count"], env={"TRACE": path}, trace=True)
        merge_stats(st, t, "NamesTrace, %d schemas" % len(recs[lo:lo + 5000]))
        st["traces_validated_against_impl"] += len(recs[lo:lo + 5000])
        clear += t.prints.get("CLEAR", []).count("1")
        if t.bad:
            b = t.bad[0]
            n = b["id"] if b.get("id") is not None else lo + b["rec"] - 1
            raise Violation("the code generated for a schema does not compile" if recs[n]["r"] == "ok" else "a valid schema is not compiled",
                            {"schema": texts[n], "answer": recs[n]["r"], "error": bad.get(n)})
    st["schemas whose names are clear"] = clear
    st["samples"].append({"schema": texts[len(texts) // 2]})


def g04(prop, st):
    r = rng(prop)
    from_harm(prop, st, r, 400 if THOROUGH else 60, 40000 if THOROUGH else 5000)
    members(prop, st, r, 6000 if THOROUGH else 600, "en")
    for _ in range(8 if THOROUGH else 1):
        x = Random(prop, st, r, 30, versions=1)
        x.enums()
        x.hostile(2500, False)
        x.roundtrip(1000, False, wire=False)
        x.lab.judge()


def g05(prop, st):
    r = rng(prop)
    k = 8 if THOROUGH else 1
    from_model(prop, st, r, 400 if THOROUGH else 60, 2500 * k)
    for _ in range(k):
        x = Random(prop, st, r, 14, versions=3)
        x.roundtrip(1500, True, wire=False)
        x.foreign(1000, True)
        x.lab.judge()


def g07(prop, st):
    r = rng(prop)
    from_harm(prop, st, r, 400 if THOROUGH else 60, 40000 if THOROUGH else 5000)
    for _ in range(8 if THOROUGH else 1):
        x = Random(prop, st, r, 30, versions=1)
        x.hostile(4000, True)
        x.lab.judge()

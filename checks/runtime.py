"""Checks of the runtime crate: the builder (W) and the reader (R)."""
import json, os
from common import *
import genbuild as gb

BUILD_MC = {   # scope: (quick constants, thorough constants)
    "tab": (dict(MaxObj=3, MaxFld=2, MaxOps=6), dict(MaxObj=3, MaxFld=3, MaxOps=7)),
    "mix": (dict(MaxObj=3, MaxFld=2, MaxOps=5), dict(MaxObj=3, MaxFld=2, MaxOps=7)),
    "vt": (dict(MaxObj=3, MaxFld=2, MaxOps=9), dict(MaxObj=4, MaxFld=2, MaxOps=11)),
}
MODEL_INVS = ["ModelWire", "ModelShare", "ModelCount", "ModelRound", "Emitted"]


def model_scripts(st, scopes, nsim):
    """Behaviours of FlatBuilder: exhaustive in small scopes, simulated beyond."""
    out = {}
    for sc in scopes:
        c = dict(BUILD_MC[sc][1 if THOROUGH else 0], Scope=sc, Emit=True)
        r = tlc("MCBuilder", c, MODEL_INVS)
        merge_stats(st, r, "MCBuilder %s, exhaustive" % sc)
        out[sc] = [json.loads(x) for x in r.prints.get("SCRIPT", [])]
    if nsim:
        r = tlc("MCBuilder", dict(Scope="sim", MaxObj=9, MaxFld=5, MaxOps=30, Emit=True), MODEL_INVS,
                simulate=(nsim, 45))
        merge_stats(st, r, "MCBuilder sim, simulation")
        # a behaviour printed more than once is one script
        seen = {json.dumps(x, sort_keys=True): x for x in map(json.loads, r.prints.get("SCRIPT", []))}
        out["sim"] = list(seen.values())
    return out


def protocol_scripts(st, n):
    r = tlc("MCProtocol", dict(MaxLen=n, Emit=True), ["TypeOK", "ResetInit", "Emitted"])
    merge_stats(st, r, "MCProtocol, exhaustive to length %d" % n)
    return [json.loads(x) for x in r.prints.get("SCRIPT", [])]


def abort_record(rec):
    return {"id": rec["id"], "ops": rec["ops"],
            "out": [{"obs": [{"r": "abort", "w": -1, "n": 0, "u": 0}], "b": [], "f": False,
                     "tree": {"k": "none"}, "first": {}, "count": 1}]}


def validate_build(prop, st, scripts, nhows, layout):
    """Runs scripts on the real builder and checks the log with TLC."""
    exe = cargo_build("rt")
    r = rng("hows")
    recs = [{"id": i, "ops": ops, "hows": gb.hows(r, nhows if len(json.dumps(ops)) < 60000 else min(2, nhows), len(ops))}
            for i, ops in enumerate(scripts)]
    chunk = 40000
    for lo in range(0, len(recs), chunk):
        part = recs[lo:lo + chunk]
        res = run_exec(exe, "build", part, "build")
        res = [x if x is not None else abort_record(p) for x, p in zip(res, part)]
        path = os.path.join(workdir("logs"), "build.ndjson")
        write_ndjson(path, res)
        t = tlc("BuilderTrace", dict(Prop=prop, Layout=layout), ["Conforms"] + (["Drift"] if layout else []),
                env={"TRACE": path}, trace=True)
        merge_stats(st, t, "BuilderTrace, %d scripts" % len(part))
        st["traces_validated_against_impl"] += sum(len(x["out"]) for x in res)
        if layout:
            st["layout_differs_from_model"] = st.get("layout_differs_from_model", 0) + len(t.prints.get("DRIFT", []))
        if t.bad:
            b = t.bad[0]
            rid = b.get("id")
            info = {"verdict": b}
            if rid is not None:
                info["script"] = recs[rid]
                info["observed"] = next(x for x in res if x["id"] == rid)
            elif b.get("rec"):
                info["observed"] = res[b["rec"] - 1]
            raise Violation(b.get("why") or "the log is not a behaviour of the specification", info)
        os.remove(path)


def sample(r, xs, n):
    return xs if len(xs) <= n else r.sample(xs, n)


def rand(r, fs, n):
    return [fs[i % len(fs)](r) for i in range(n)]


def limits(prop, st):
    """Tables around the limits of 16-bit offsets."""
    exe = cargo_build("rt")
    t = tlc("WideTable", dict(Mode="cases", Prop=prop), ["Emitted"])
    merge_stats(st, t, "WideTable, all cases")
    recs = [dict(json.loads(x), id=i) for i, x in enumerate(sorted(set(t.prints["CASE"])))]
    if not THOROUGH:
        recs = rng("wide").sample(recs, 60)
        recs = [dict(x, id=i) for i, x in enumerate(recs)]
    res = run_exec(exe, "wide", recs, "wide")
    res = [x if x is not None else dict(p, r="abort", got=[], vlen=0, olen=0, len=0, loc=0, vt=0, again=False) for x, p in zip(res, recs)]
    path = os.path.join(workdir("logs"), "wide.ndjson")
    write_ndjson(path, res)
    t = tlc("WideTable", dict(Mode="trace", Prop=prop), ["Conforms"], env={"TRACE": path}, trace=True)
    merge_stats(st, t, "WideTable, %d tables" % len(recs))
    st["traces_validated_against_impl"] += len(recs)
    if t.bad:
        b = t.bad[0]
        n = b["id"] if b.get("id") is not None else (b.get("rec") or 1) - 1
        raise Violation("a table around the limits of 16-bit offsets", {"case": recs[n], "observed": cut(res[n], 500)})
    os.remove(path)


def cases(prop, st, module, mode, dead, what, consts):
    """All cases of a module, run and judged by it."""
    exe = cargo_build("rt")
    t = tlc(module, dict(Mode="cases", **consts), ["Emitted"])
    merge_stats(st, t, module + ", all cases")
    recs = [dict(json.loads(x), id=i) for i, x in enumerate(sorted(set(t.prints["CASE"])))]
    res = [x if x is not None else dict(p, **dead) for x, p in zip(run_exec(exe, mode, recs, mode), recs)]
    path = os.path.join(workdir("logs"), mode + ".ndjson")
    write_ndjson(path, res)
    t = tlc(module, dict(Mode="trace", **consts), ["Conforms"], env={"TRACE": path}, trace=True)
    merge_stats(st, t, "%s, %d runs" % (module, len(recs)))
    st["traces_validated_against_impl"] += len(recs)
    if t.bad:
        b = t.bad[0]
        n = b["id"] if b.get("id") is not None else (b.get("rec") or 1) - 1
        raise Violation(what, {"case": recs[n], "observed": res[n]})
    os.remove(path)


def size_limit(prop, st):
    cases(prop, st, "WideBuffer", "big", dict(new="abort", steps=[], end="none", got=[], used=[0, 0], again=False),
          "a buffer around the limit of two gigabytes", dict(Prop=prop))


def long_vectors(prop, st):
    cases(prop, st, "LongVector", "long", dict(r="abort", len=0, get=[], slice=[], nth=[], back=[], count=0),
          "a vector of more elements than 16 bits count", {})


def long_buffers(prop, st):
    cases(prop, st, "LongBuffer", "grow", dict(out=[]), "a long buffer depends on the capacity or the past of its builder" if prop == "W04" else "a long buffer is out of order",
          dict(Prop=prop, Largest=2100 if THOROUGH else 260))


def builder(prop, st):
    r = rng(prop)
    if prop in ("W02", "W04"):
        long_buffers(prop, st)
    if prop == "W05":
        size_limit(prop, st)
    if prop == "W01":
        long_vectors(prop, st)
    if prop in ("W01", "W02", "W05"):
        limits(prop, st)
    k = 8 if THOROUGH else 1
    if prop == "W05":
        ps = protocol_scripts(st, 5 if THOROUGH else 4)
        st["exhaustive_scripts"] = len(ps)
        scripts = sample(r, ps, 150000) + rand(r, [gb.protocol], 6000 * k) + rand(r, [gb.mixed, gb.vts], 300 * k)
        validate_build(prop, st, scripts, 2, False)
    elif prop == "W06":
        ms = model_scripts(st, ["vt"], 0)
        scripts = sample(r, ms["vt"], 6000 * k) + rand(r, [gb.scalars], 8000 * k) + rand(r, [gb.wide], 20 * k)
        validate_build(prop, st, scripts, 2, False)
    else:
        scopes = {"W01": ["tab", "mix"], "W02": ["tab", "mix"], "W03": ["vt", "tab"], "W04": ["mix"]}[prop]
        ms = model_scripts(st, scopes, 3000 * k if prop in ("W01", "W02") else 1500 * k)
        scripts = []
        for sc, xs in ms.items():
            st.setdefault("model_scripts", {})[sc] = len(xs)
            scripts += sample(r, xs, 7000 * k)
        if prop == "W03":
            scripts += rand(r, [gb.vts], 2500 * k) + rand(r, [gb.mixed, gb.deep], 500 * k) + rand(r, [gb.wide], 20 * k)
            scripts += rand(r, [gb.giant], 2) + rand(r, [gb.huge], 4) + rand(r, [gb.many], 12 * k)
        elif prop == "W04":
            scripts = sample(r, scripts, 3000 * k)
            scripts += rand(r, [gb.mixed, gb.vts, gb.scalars, gb.deep, gb.protocol], 3000 * k) + rand(r, [gb.wide, gb.long_], 60 * k)
            scripts += rand(r, [gb.giant, gb.huge], 4)
        else:
            scripts += rand(r, [gb.mixed, gb.mixed, gb.vts, gb.deep], 2400 * k)
            scripts += rand(r, [gb.wide, gb.long_], 80 * k) + rand(r, [gb.giant, gb.huge], 6 * k)
        validate_build(prop, st, scripts, 12 if prop == "W04" else 2, prop in ("W01", "W02", "W04") and prop != "W04")
    st["scripts"] = len(scripts)
    st["samples"] = [cut(scripts[0]), cut(scripts[len(scripts) // 2])]


# ------------------------------------------------------------------- reader
Q0 = {"k": "loc", "sp": False, "path": [], "s": 4, "t": "u8", "i": 0, "j": 0, "d": [], "at": 0}


def q(**kw):
    x = dict(Q0)
    x.update(kw)
    return x


def rand_query(r):
    k = r.choice(["sc", "sc", "sc", "str", "bs", "sl", "vss", "vlen", "vempty", "vget", "vget", "viter", "vback", "vv",
                  "vt", "vt", "id", "loc", "rsat", "rs", "fol"])
    x = q(k=k, sp=r.randrange(4) == 0, s=r.choice([4, 4, 6, 6, 8, 10, 12, 14, 16, 20, 0, 2, 5, 7, 65535, 65534]))
    if r.randrange(3) == 0 and k not in ("id", "rsat", "rs", "fol"):
        x["path"] = [{"s": r.choice([4, 6, 8, 10]), "i": r.choice([-1, -1, -1, 0, 1])} for _ in range(r.randrange(1, 3))]
    t = r.choice(gb.TYPES)
    if k in ("sl", "vss", "rs"):
        t = r.choice(gb.SLICE)
    if k in ("vget", "viter", "vback") and r.randrange(2):
        t = r.choice(["str", "bs", "tab"])
    x["t"] = t
    x["i"] = r.choice([0, 0, 1, 2, 3, 5, 40])
    x["j"] = r.choice([0, 0, 1, 2])
    if k == "sc" and r.randrange(3) == 0:
        x["d"] = gb.val(r, t)
    if k == "vt":
        x["t"] = r.choice(["num_bytes", "num_fields", "inline", "get", "get", "get_field", "get_field", "as_bytes"])
    if k == "id":
        x["d"] = list(r.choice([b"ABCD", b"id42", b"\0\0\0\0", b"\x10\0\0\0"]))
    if k in ("rsat", "rs", "fol"):
        x["at"] = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 13, 20, 40, 100])
        if k == "rsat" and r.randrange(3) == 0:
            x["at"] = -1
        if k == "fol":
            x["t"] = r.choice(["voff", "uoff", "soff", "skipid", "skipsz", "skiproot", "ident", "start"])
    return x


def le(n, w):
    return [(n >> (8 * i)) & 255 for i in range(w)]


def near(r, b, x):
    """An identifier the buffer has, or almost."""
    at = 8 if x["sp"] else 4
    d = [v & 127 for v in b[at:at + 4]]
    d += [0] * (4 - len(d))
    if r.randrange(3):
        d[r.randrange(4)] ^= 1 << r.choice([5, 5, r.randrange(7)])
    return d


def mutate(r, b):
    b = list(b)
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        k = r.randrange(6)
        if not b:
            break
        if k == 0:
            b = b[:r.randrange(len(b) + 1)]
        elif k == 1:
            b[r.randrange(len(b))] = r.choice([0, 1, 2, 4, 127, 128, 254, 255, r.randrange(256)])
        elif k == 2:   # a 32-bit word
            p = 4 * r.randrange(max(1, len(b) // 4))
            v = r.choice([0, 1, 4, len(b), len(b) - p, len(b) - p - 1, len(b) - p - 4, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - 4,
                          2 ** 24, 2 ** 16, p, p + 4, 2 ** 32 - p])
            b[p:p + 4] = le(v % 2 ** 32, 4)
        elif k == 3:   # a 16-bit word
            p = 2 * r.randrange(max(1, len(b) // 2))
            b[p:p + 2] = le(r.choice([0, 1, 2, 3, 4, 5, 6, 8, len(b) % 65536, 32768, 65535, 65534]), 2)
        elif k == 4:
            b += [r.randrange(256) for _ in range(r.randrange(6))]
        else:
            p = r.randrange(len(b))
            del b[p:p + r.choice([1, 1, 2, 4])]
    return b


def far(r):
    """A buffer whose parts lie far apart, with wide vtables and long vectors: distances, sizes, slots
    and counts of more than 8, 15 and 16 bits. What it means is for the specification to say."""
    n = r.choice([70000, 100000, 140000, 200000])
    b = [(37 * i + i // 256) % 251 for i in range(n)]
    put = lambda at, v, w: b.__setitem__(slice(at, at + w), le(v % 2 ** (8 * w), w)) if 0 <= at <= n - w else None
    sized = r.randrange(4) == 0
    anywhere = lambda: 8 * r.randrange(2, n // 8 - 20)
    table, vt = anywhere(), anywhere() & ~1
    put(4 if sized else 0, table - (4 if sized else 0), 4)
    put(table, table - vt, 4)
    slots = r.choice([6, 126, 130, 260, 300, 16000, 32760])
    put(vt, 4 + 2 * slots, 2)
    put(vt + 2, r.choice([4, 255, 256, 40000, 65535]), 2)
    qs = [q(k="vt", sp=sized, t=t) for t in ("num_bytes", "num_fields", "inline")] + [q(k="loc", sp=sized)]
    used = r.sample([0, 1, 2, 3, 4, 5] + [x for x in (125, 126, 127, 128, 255, 256, 257, 299, slots - 1, 15999, 32759) if x < slots], 6)
    for s in used:
        off = r.choice([4, 12, 252, 256, 260, 1000, 32760, 32768, 32772, 50000, 65528, 65535, r.randrange(4, 65536)])
        if table + off + 8 > n:
            off = r.choice([4, 12, 16, 20])
        slot = 4 + 2 * s
        put(vt + slot, off, 2)
        qs += [q(k="sc", sp=sized, s=slot, t=r.choice(gb.TYPES)), q(k="vt", sp=sized, t="get", s=slot), q(k="vt", sp=sized, t="get_field", i=s)]
        to = anywhere()
        if to <= table + off:
            continue
        put(table + off, to - table - off, 4)
        kind = r.choice(["str", "vec", "vec", "refs", "tab"])
        if kind == "str":
            x = r.choice(["", "far away", "\u00e9"]).encode()
            put(to, len(x), 4)
            b[to + 4:to + 5 + len(x)] = list(x) + [0]
            qs.append(q(k="str", sp=sized, s=slot))
        elif kind == "vec":
            t = r.choice(gb.SLICE)
            c = r.choice([3, 255, 256, 300, 32768, 65535, 65536, 65540, 70000])
            put(to, c, 4)
            qs += [q(k=k, sp=sized, s=slot, t=t) for k in ("vlen", "vempty", r.choice(["sl", "vss"]))] + [q(k="bs", sp=sized, s=slot)] * (c < 1000)
            qs += [q(k="vget", sp=sized, s=slot, t=t, i=i) for i in (0, 255, 256, 32768, 65535, 65536, c - 1) if i < c]
        elif kind == "refs":
            c = r.choice([2, 300, 20000])
            put(to, c, 4)
            for i in (0, 1, 299, c - 1):
                if i < c and to + 4 + 4 * i < n - 60000:
                    at, x = to + 4 + 4 * i, r.choice([40, 40000, 59000])
                    put(at, x, 4)
                    put(at + x, 3, 4)
                    b[at + x + 4:at + x + 8] = [102, 97, 114, 0]
                    qs += [q(k="vget", sp=sized, s=slot, t=t, i=i) for t in ("str", "bs", "tab")]
        else:
            put(to, to - vt, 4)
            qs += [q(k="sc", sp=sized, path=[{"s": slot, "i": -1}], s=4 + 2 * r.choice(used), t=r.choice(gb.TYPES))]
    return {"al": r.choice([0, 0, 4]), "b": b, "qs": qs}


def reader_records(st, n_mut, n_rand, r, exe):
    recs = []
    # the specification's own buffers
    for sc in ["tab", "ref", "raw"]:
        t = tlc("MCReader", dict(Scope=sc, Emit=True), ["Total", "Definite", "Stable", "Emitted"])
        merge_stats(st, t, "MCReader %s, exhaustive" % sc)
        qs = json.loads(t.prints["QS"][0])
        bufs = sorted(set(t.prints["BUF"]))
        st.setdefault("model_buffers", {})[sc] = len(bufs)
        for x in bufs:
            recs.append({"al": r.randrange(8) if sc == "ref" else 0, "b": json.loads(x), "qs": qs})
            if sc == "ref":
                recs.append({"al": 0, "b": json.loads(x), "qs": qs})
    # buffers of the real builder, intact and damaged
    scripts = rand(r, [gb.mixed, gb.mixed, gb.vts, gb.deep], n_mut // 4)
    built = run_exec(exe, "build", [{"id": i, "ops": s, "hows": [{"cap": 0, "past": "fresh"}]} for i, s in enumerate(scripts)], "bufs")
    for x in built:
        if x is None:
            continue
        b = x["out"][0]["b"]
        if not b or len(b) > 1500:
            continue
        for _ in range(4):
            b2 = mutate(r, b)
            qs = [rand_query(r) for _ in range(25)]
            for x in qs:
                if x["k"] == "id" and r.randrange(2):
                    x["d"] = near(r, b2, x)
            recs.append({"al": r.choice([0, 0, 0, 1, 2, 4, 7]), "b": b2, "qs": qs})
    for _ in range(n_rand):
        b = [r.choice([0, 0, 0, 4, 8, 1, 255, r.randrange(256)]) for _ in range(r.randrange(64))]
        recs.append({"al": r.randrange(8), "b": b, "qs": [rand_query(r) for _ in range(25)]})
    recs += [far(r) for _ in range(n_rand // 100)]
    for i, x in enumerate(recs):
        x["id"] = i
    return recs


def run_reads(exe, recs):
    res = run_exec(exe, "read", recs, "read")
    for i, x in enumerate(res):
        if x is None:   # which question killed it?
            rec = recs[i]
            one = run_exec(exe, "read", [dict(rec, qs=[y]) for y in rec["qs"]], "one")
            res[i] = dict(rec, rs=[o["rs"][0] if o else {"ok": False, "e": "PANIC", "p": False, "v": []} for o in one])
    return res


def reader(prop, st):
    r = rng(prop)
    exe = cargo_build("rt")
    k = 10 if THOROUGH else 1
    recs = reader_records(st, 6000 * k, 4000 * k, r, exe)
    chunk = 30000
    for lo in range(0, len(recs), chunk):
        part = recs[lo:lo + chunk]
        res = run_reads(exe, part)
        path = os.path.join(workdir("logs"), "read.ndjson")
        write_ndjson(path, res)
        t = tlc("ReaderTrace", dict(Prop=prop), ["Conforms"], env={"TRACE": path}, trace=True)
        merge_stats(st, t, "ReaderTrace, %d buffers" % len(part))
        st["traces_validated_against_impl"] += len(part)
        if t.bad:
            b = t.bad[0]
            info = {"verdict": b}
            if b.get("id") is not None:
                info["buffer"] = recs[b["id"]]["b"]
                info["alignment"] = recs[b["id"]]["al"]
            raise Violation("read operation %s" % (b.get("q", {}) or {}).get("k"), info)
        os.remove(path)
    st["queries"] = sum(len(x["qs"]) for x in recs)
    if prop == "R02":
        long_vectors(prop, st)
    st["samples"] = [cut({"b": recs[-1]["b"], "q": recs[-1]["qs"][0]}), cut({"b": recs[100]["b"], "q": recs[100]["qs"][0]})]


def iterator(prop, st):
    r = rng(prop)
    exe = cargo_build("rt")
    t = tlc("MCIter", dict(MaxN=3, MaxLen=5 if THOROUGH else 4, MaxIts=2, Emit=True), ["TypeOK", "Once", "Emitted"])
    merge_stats(st, t, "MCIter, exhaustive")
    hist = [json.loads(x) for x in t.prints["HIST"]]
    st["model_histories"] = len(hist)
    hist = sample(r, hist, 60000 if THOROUGH else 15000)
    recs = []

    def vecbuf(t, n):
        pre = [r.randrange(256) for _ in range(r.choice([0, 0, 4, 8, 3]))]
        b = pre + le(n, 4)
        if t == "str" or t == "tab":
            # offsets to strings behind the vector
            body, strs = [], []
            for i in range(n):
                here = len(b) + 4 * i
                off = len(b) + 4 * n + len(strs) - here
                s = list(("s%d" % i).encode())
                strs += le(len(s), 4) + s + [0]
                body += le(off, 4)
            return b + body + strs, len(pre)
        for _ in range(n):
            b += gb.val(r, t)
        return b, len(pre)
    for h in hist:
        t = r.choice(gb.TYPES + ["str"])
        b, loc = vecbuf(t, h["n"])
        ops = h["ops"] + [{"op": "len", "w": 1, "n": 0}, {"op": "all", "w": 1, "n": 0}]
        recs.append({"t": t, "al": r.randrange(8), "loc": loc, "b": b, "ops": ops})
    for _ in range(60000 if THOROUGH else 8000):
        t = r.choice(gb.TYPES + ["str", "tab"])
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 20, 70])
        b, loc = vecbuf(t, n)
        k = r.randrange(4)
        if k == 0:
            b = b[:r.randrange(len(b) + 1)]
        elif k == 1:   # a length that lies
            b[loc:loc + 4] = le(r.choice([0, n + 1, n + 3, 100, n + 256, n + 65536, 2 ** 24, 2 ** 31, 2 ** 32 - 1]), 4)
        ops, its = [], 1
        for _ in range(r.randrange(1, 14)):
            o = r.choice(["next", "next", "back", "back", "nth", "nthb", "len", "clone", "into", "intoref", "count", "last", "all"])
            ops.append({"op": o, "w": r.randrange(1, its + 1), "n": r.choice([0, 0, 1, 1, 2, 3, n, n + 1, 256, 65536, -1, -2, -3])})
            if o in ("clone", "into", "intoref"):
                its += 1
        recs.append({"t": t, "al": r.randrange(8), "loc": loc, "b": b, "ops": ops})
    # more elements than 8 and 16 bits count
    for n in [256, 257, 300, 65536, 65537, 65600] * (10 if THOROUGH else 2):
        t = r.choice(["u8", "i8", "bool"]) if n > 1000 else r.choice(gb.TYPES + ["str"])
        b, loc = vecbuf(t, n)
        ops = [{"op": "len", "w": 1, "n": 0}]
        for _ in range(12):
            ops.append({"op": r.choice(["next", "back", "nth", "nthb", "clone", "len"]), "w": 1, "n": r.choice([0, 1, 100, 254, 255, 256, n // 2, n - 300, n - 3])})
        ops.append({"op": "into", "w": 1, "n": 0})
        w = 2 + sum(o["op"] == "clone" for o in ops)
        ops += [{"op": r.choice(["nth", "nthb"]), "w": w, "n": n - r.choice([1, 2, 3])}, {"op": "len", "w": w, "n": 0}]
        recs.append({"t": t, "al": r.randrange(8), "loc": loc, "b": b, "ops": ops})
    for i, x in enumerate(recs):
        x["id"] = i
    res = run_exec(exe, "iter", recs, "iter")
    res = [x if x is not None else dict(p, rs=[]) for x, p in zip(res, recs)]
    path = os.path.join(workdir("logs"), "iter.ndjson")
    write_ndjson(path, res)
    t = tlc("IterTrace", {}, ["Conforms"], env={"TRACE": path}, trace=True)
    merge_stats(st, t, "IterTrace, %d histories" % len(recs))
    st["traces_validated_against_impl"] += len(recs)
    if t.bad:
        b = t.bad[0]
        info = {"verdict": b}
        if b.get("id") is not None:
            info["record"] = recs[b["id"]]
        raise Violation("iterator call %s" % (b.get("op", {}) or {}).get("op"), info)
    st["samples"] = [cut(recs[0]), cut(recs[-1])]

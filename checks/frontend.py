"""Checks of the schema compiler's front end: parsing (S01), resolution (S02),
refusals (S03) and the RPC generator interface (G06)."""
import collections, json, os
from common import *
import syntax as sx, semantic as sem

STARTS = {   # start symbol: most tokens (quick, thorough)
    "Schema": (9, 11), "Table": (11, 14), "Enum": (12, 14), "Union": (11, 13), "Rpc": (15, 18), "Object": (9, 12)}
SCOPES = {   # alphabet: longest schema (quick, thorough)
    "ref": (4, 5), "dup": (3, 4), "ns": (4, 5), "rpc": (4, 5), "meth": (4, 5)}


def sentences(st, nsim):
    """Sentences of the grammar: all short ones, and simulated longer ones."""
    out = []
    for s, n in STARTS.items():
        r = tlc("MCGrammar", dict(Start=s, MaxToks=n[THOROUGH], Rich=False, Emit=True), ["Derived", "Emitted"])
        merge_stats(st, r, "MCGrammar %s to %d tokens, exhaustive" % (s, n[THOROUGH]))
        out += r.prints.get("SENT", [])
    r = tlc("MCGrammar", dict(Start="Schema", MaxToks=60, Rich=True, Emit=True), ["Derived", "Emitted"], simulate=(nsim, 150))
    merge_stats(st, r, "MCGrammar rich, simulation")
    out += r.prints.get("SENT", [])
    return [json.loads(x) for x in sorted(set(out))]


def schemas(st, scopes, want):
    """Schemas of the resolution model, with the model's verdict."""
    out = []
    for a in scopes:
        n = SCOPES[a][THOROUGH]
        r = tlc("MCResolve", dict(Alphabet=a, MaxLen=n, Emit=True), ["Right", "Emitted"], properties=["Ends"] if n < 5 else [])
        merge_stats(st, r, "MCResolve %s to %d elements, exhaustive" % (a, n))
        out += [x for x in (json.loads(y) for y in sorted(set(r.prints.get("SENT", [])))) if want is None or x["v"] == want]
    return out


def paths(st, r, n):
    """A type of one namespace used in another: groups of the same in all orders."""
    depth = 3
    t = tlc("MCPaths", dict(Depth=depth, Emit=True), ["AllValid", "Leads", "Emitted"])
    merge_stats(st, t, "MCPaths to depth %d, exhaustive" % depth)
    groups = collections.defaultdict(list)
    for x in sorted(set(t.prints["SENT"])):
        x = json.loads(x)
        groups[json.dumps(x["g"], sort_keys=True)].append(x["toks"])
    return [groups[g] for g in pick(r, sorted(groups), n)]


def members(st, r, n, good):
    """Enums and unions (declarations) with values at and around the limits."""
    t = tlc("MCEnums", dict(Most=4 if THOROUGH else 3, Emit=True), ["Agree", "Closed", "Emitted"])
    merge_stats(st, t, "MCEnums, exhaustive")
    return pick(r, [x["toks"] for x in (json.loads(y) for y in sorted(set(t.prints["SENT"]))) if x["ok"] == good], n)


def tables(names):
    return [t for x in names for t in (sx.w("table"), sx.w(x), sx.p("{"), sx.p("}"))]


def bare(o):
    return {k: v for k, v in o.items() if k not in ("id", "why")} if o is not None else {"r": "abort"}


def pick(r, xs, n):
    return xs if len(xs) <= n else r.sample(xs, n)


def judge(module, prop, st, recs, texts, kind, extra=()):
    """Validates a log in parts (TLC keeps a log in memory)."""
    for lo in range(0, len(recs), 20000):
        part = recs[lo:lo + 20000]
        path = os.path.join(workdir("logs"), "fe.ndjson")
        write_ndjson(path, part)
        t = tlc(module, dict(Prop=prop), ["Conforms"] + list(extra), env={"TRACE": path}, trace=True)
        merge_stats(st, t, "%s, %d %s" % (module, len(part), kind))
        st["traces_validated_against_impl"] += sum(len(x.get("runs", [0])) for x in part)
        if "VALID" in t.prints:
            c = collections.Counter(t.prints["VALID"])
            for k, v in (("0", "no syntax"), ("1", "nothing said"), ("2", "valid"), ("3", "invalid")):
                st["schemas " + v] = st.get("schemas " + v, 0) + c[k]
        if t.bad:
            b = t.bad[0]
            x = next((y for y in part if y["id"] == b["id"]), None) if b.get("id") is not None else (part[b["rec"] - 1] if b.get("rec") else None)
            info = {"verdict": b}
            if x is not None:
                info["texts"] = texts[x["id"]]
                info["observed"] = cut(x, 4000)
            raise Violation("%s: the compiler's answer is not the specification's" % module, info)
        os.remove(path)


def parsed(prop, st, items, kind):
    """items: (text, tokens). The real parser's answers, judged."""
    exe = cargo_build("fe")
    res = run_par(exe, "parse", [{"id": k, "text": t} for k, (t, _) in enumerate(items)], "parse", stall=30)
    recs = [{"id": k, "toks": toks, "out": bare(o)} for k, ((_, toks), o) in enumerate(zip(items, res))]
    st["samples"] += [cut({"text": items[k][0], "r": recs[k]["out"]["r"]}, 400) for k in (0, len(items) // 2)]
    judge("GrammarTrace", prop, st, recs, [t for t, _ in items], kind)


def compiled(prop, st, items, kind):
    """items: lists of (text, tokens), the orders of one schema."""
    exe = cargo_build("fe")
    flat = [{"id": 0, "text": t, "detail": prop in ("S02", "G08")} for x in items for t, _ in x]
    res = iter(run_par(exe, "compile", flat, "compile", stall=30))
    recs = []
    for k, x in enumerate(items):
        recs.append({"id": k, "runs": [{"toks": toks, "out": bare(next(res))} for _, toks in x]})
    st["samples"].append(cut({"texts": [t for t, _ in items[len(items) // 2]], "out": recs[len(items) // 2]["runs"][0]["out"]}, 1500))
    judge("ResolveTrace", prop, st, recs, [[t for t, _ in x] for x in items], kind, ["Count"])


def garbage(prop, st, texts):
    """Texts nothing is known of: there is an outcome, whatever it is."""
    exe = cargo_build("fe")
    for mode in ("parse", "compile"):
        res = run_par(exe, mode, [{"id": k, "text": t} for k, t in enumerate(texts)], "garbage-" + mode, stall=30)
        recs = [{"id": k, "out": {"r": bare(o)["r"]}} for k, o in enumerate(res)]
        judge("GrammarTrace", "any", st, recs, texts, "garbled texts (%s)" % mode)


def large(c):
    """The schema of a case of SchemaLimits."""
    k, n, m, x = c["k"], c["n"], c["m"], c["x"]
    rows = lambda f, a=n: [f(i) for i in range(a)]
    if k == "fields":
        return "table M {} union U { M } table A { %s }" % " ".join(rows(lambda i: "f%d: bool;" % i) + rows(lambda i: "u%d: U;" % i, m))
    if k == "union":
        return "\n".join(rows(lambda i: "table T%d {}" % i)) + " union U { %s }" % ", ".join(rows(lambda i: "T%d" % i))
    if k == "enum":
        return "enum E: %s { %s }" % (x, ", ".join(rows(lambda i: "V%d" % i)))
    if k in ("chain", "broken"):
        one = {"field": "table T%d { x: T%d; }", "vector": "table T%d { x: [[T%d]]; }", "union": "table T%d { x: U%d; }", "service": "table T%d {} rpc_service S%d { f(T%d): T%d; }",
               "namespace": "namespace n%d; table T%d { x: n%d.T%d; }"}[x]
        def part(i):
            if x == "union":
                return one % (i, i + 1) + " union U%d { T%d }" % (i, i)
            return one % {"service": (i, i, i + 1, i + 1), "namespace": (i, i, i + 1, i + 1)}.get(x, (i, i + 1))
        last = {"union": "table T%d {} union U%d { T%d }" % (n, n, n), "namespace": "namespace n%d; table T%d {}" % (n, n)}.get(x, "table T%d {}" % n)
        ps = rows(part) + ([last] if k == "chain" else ["namespace z; table T%d {}" % n])
        if k == "broken" and m:
            ps = ps[:-1]
        if m == 1:
            ps.reverse()
        elif m == 2:
            ps = ps[::2] + ps[1::2][::-1]
        return "\n".join(ps)
    if k in ("many", "again"):
        names = ["N%d" % i for i in range(n)]
        if k == "again":
            names.append(names[m - 1])
        return {"field": lambda: "table A { %s }" % " ".join("f%s: int;" % a for a in names),
                "variant": lambda: "enum E: ushort { %s }" % ", ".join(names),
                "member": lambda: "".join("table %s {} " % a for a in names[:n]) + "union U { %s }" % ", ".join(names if k == "again" else names[:200]),
                "method": lambda: "table A {} rpc_service S { %s }" % " ".join("%s(A): A;" % a for a in names),
                "service": lambda: "table A {} " + "\n".join("rpc_service %s { f(A): A; }" % a for a in names),
                "docs": lambda: "\n".join("/// %s" % a for a in names) + "\ntable A { %s x: int; }" % "".join("\n/// %s\n" % a for a in names),
                "table": lambda: "\n".join("table %s { x: int; }" % a for a in names)}[x]()
    if k == "deep" and x == "namespace":
        return "namespace %s; table A { x: A; }" % ".".join(rows(lambda i: "n%d" % i))
    if x == "vector":
        return "table A { x: %sint%s" % ("[" * n, "]" * n + "; }" if k == "deep" else "")
    a, b = ("{ a: ", "}") if x == "object" else ("[", "]")
    return ("{ b: " if x == "list" else "") + a * n + "1" + (b * n + ("}" if x == "list" else "") if k == "closed" else "")


def limits(prop, st, part):
    exe = cargo_build("fe")
    t = tlc("SchemaLimits", dict(Mode="cases", Part=part), ["Emitted"])
    merge_stats(st, t, "SchemaLimits, %s" % part)
    cs = [json.loads(x) for x in sorted(set(t.prints["CASE"]))]
    cs.sort(key=lambda c: (-c["n"], json.dumps(c)))
    texts = [large(c) for c in cs]
    recs = [{"id": k, "c": c, "r": bare(o)["r"]} for k, (c, o) in enumerate(zip(cs, run_par(exe, "brief", [{"id": 0, "text": t} for t in texts], "limits", stall=100)))]
    path = os.path.join(workdir("logs"), "limits.ndjson")
    write_ndjson(path, recs)
    t = tlc("SchemaLimits", dict(Mode="trace", Part=part), ["Conforms"], env={"TRACE": path}, trace=True)
    merge_stats(st, t, "SchemaLimits, %d schemas large in one respect" % len(recs))
    st["traces_validated_against_impl"] += len(recs)
    if t.bad:
        x = recs[t.bad[0]["id"] if t.bad[0].get("id") is not None else (t.bad[0].get("rec") or 1) - 1]
        raise Violation("a schema that is large in one respect is not accepted or refused as specified", {"case": x["c"], "answer": x["r"], "schema": cut(texts[x["id"]], 3000)})


def s01(prop, st):
    r = rng(prop)
    k = 10 if THOROUGH else 1
    items = []
    for toks in sentences(st, 300 * k):
        for _ in range(2):
            items.append((sx.render(r, toks), toks))
    parsed(prop, st, items, "sentences of the grammar")
    items = []
    for _ in range(4000 * k):
        toks = sx.Sentences(r).schema()
        items.append((sx.render(r, toks), toks))
    parsed(prop, st, items, "random texts")


def s03(prop, st):
    r = rng(prop)
    k = 10 if THOROUGH else 1
    sents = sentences(st, 200 * k)
    items = []
    for toks in pick(r, sents, 4000 * k):
        m = sx.mutate(r, toks)
        items.append((sx.render(r, m, loose=True), m))
    for _ in range(3000 * k):
        m = sx.mutate(r, sx.Sentences(r).schema())
        items.append((sx.render(r, m, loose=True), m))
    parsed(prop, st, items, "texts with changed tokens")
    items = []
    for x in pick(r, schemas(st, SCOPES, "refused"), 5000 * k):
        items.append([(sx.render(r, x["toks"]), x["toks"])])
    for x in members(st, r, 1500 * k, False) + members(st, r, 300 * k, True):
        toks = x + tables(["Ma", "Mb", "Mc", "Md"])
        items.append([(sx.render(r, toks), toks)])
    for _ in range(3000 * k):
        ds = sem.Schemas(r, 0.2).schema()
        toks = sem.tokens(r, sem.order(r, ds))
        if r.random() < 0.2:
            toks = sx.mutate(r, toks)
            items.append([(sx.render(r, toks, loose=True), toks)])
        else:
            items.append([(sx.render(r, toks), toks)])
    compiled(prop, st, items, "schemas, many of them wrong")
    texts = [sx.garble(r, sx.render(r, sx.Sentences(r).schema() if r.random() < 0.5 else sem.tokens(r, sem.order(r, sem.Schemas(r).schema()))))
             for _ in range(3000 * k)]
    garbage(prop, st, texts)
    limits(prop, st, "wrong")


def s02(prop, st):
    r = rng(prop)
    k = 10 if THOROUGH else 1
    acc = schemas(st, SCOPES, "accepted")
    # the schemas of the scope that mean the same, whatever their order
    groups = collections.defaultdict(list)
    for x in acc:
        groups[json.dumps(sorted(json.dumps(t) for t in x["toks"]))].append(x["toks"])
    items = []
    for key in sorted(groups):
        g = pick(r, groups[key], 6)
        items.append([(sx.render(r, toks), toks) for toks in g])
    compiled(prop, st, pick(r, items, 1500 * k), "schemas of the scope in their orders")
    items = [[(sx.render(r, toks), toks) for toks in g] for g in paths(st, r, 400 * k)]
    compiled(prop, st, items, "uses of a type in another namespace")
    items = []
    for _ in range(1000 * k):
        ds = sem.Schemas(r, 0.05).schema()
        if ds:
            items.append([(sx.render(r, t), t) for t in (sem.tokens(r, sem.order(r, ds)) for _ in range(4))])
    compiled(prop, st, items, "random schemas in four orders")
    limits(prop, st, "valid")


def g06(prop, st):
    r = rng(prop)
    k = 10 if THOROUGH else 1
    acc = schemas(st, ["rpc", "meth"], None)
    items = [[(sx.render(r, x["toks"]), x["toks"])] for x in pick(r, acc, 3000 * k)]
    items += [[(sx.render(r, g[0]), g[0])] for g in paths(st, r, 300 * k)]
    compiled(prop, st, items, "schemas of the scope")
    items = []
    while len(items) < 2000 * k:
        ds = sem.Schemas(r, 0.1).schema(rpc=True)
        if ds:
            t = sem.tokens(r, sem.order(r, ds))
            items.append([(sx.render(r, t), t)])
    compiled(prop, st, items, "random schemas with services")


def documented(prop, st, r, k):
    """Comments of all kinds at all places of model and random schemas."""
    acc = schemas(st, SCOPES, "accepted")
    items = []
    for x in pick(r, acc, 2000 * k):
        toks = sem.comment(r, x["toks"])
        items.append([(sx.render(r, toks), toks)])
    compiled(prop, st, items, "schemas of the scope with comments")
    items = []
    while len(items) < 2000 * k:
        ds = sem.Schemas(r, 0.0).schema()
        if ds:
            toks = sem.comment(r, sem.tokens(r, sem.order(r, ds)))
            items.append([(sx.render(r, toks), toks)])
    compiled(prop, st, items, "random schemas with comments")

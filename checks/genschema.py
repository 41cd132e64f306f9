"""Random valid schemas with their older versions, and random values for them."""
import struct
from syntax import w, p, d, i, st, f as fl, digits
from semantic import BITS, INTS, dotted

TABLES = ["Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta", "Eta2", "MonsterStat"]
ENUMS = ["Color", "KindOf", "Level"]
UNIONS = ["Any", "Equip", "Ux"]
FIELDS = ["aa", "bb", "cc", "dd", "ee_ff", "x1", "value", "left", "Upper", "camelCase", "h_2", "zz9", "name", "pos"]
VARS = ["Red", "Green", "Blue", "ZERO", "last_one", "Max"]
NSS = [[], ["n"], ["n", "k"], ["h"], ["n", "k", "z"], ["Game", "Data"]]
SCALARS = INTS + ["bool", "float", "double", "float32", "float64"]
FLOATS = [([1, 5], 1, 0), ([0], 0, 0), ([3, 1, 4, 1, 5, 9], 5, 0), ([2], 0, 3), ([1], 0, -3), ([1, 0, 0, 0], 3, 2), ([7, 2, 5], 0, -20), ([1, 6, 7, 7, 7, 2, 1, 7], 0, 0)]

D = lambda s: [int(c) for c in s]
# the ends of the ranges, and the middle between two neighbours
EDGES = {4: [(D("34028235"), 7, 38), (D("1"), 0, -45), (D("117549435"), 8, -38), (D("16777219"), 0, 0), (D("1401298464"), 9, -45), (D("33554433"), 0, 0)],
         8: [(D("17976931348623157"), 16, 308), (D("5"), 0, -324), (D("22250738585072014"), 16, -308), (D("9007199254740993"), 0, 0), (D("9007199254740995"), 0, 0),
             (D("1"), 0, 300), (D("123456789012345678"), 0, 4)]}


def num(r, v):
    base = 10 if r.random() < 0.8 else 16
    return i(v < 0, base, digits(abs(v), base))


def limits(t):
    b = BITS[t]
    return (-(1 << (-b - 1)), (1 << (-b - 1)) - 1) if b < 0 else (0, (1 << b) - 1)


def size(t):
    return 1 if t == "bool" else abs(BITS[t]) // 8 if t in BITS else 4 if t in ("float", "float32") else 8


def le(t, v):
    return list((v % (1 << (8 * size(t)))).to_bytes(size(t), "little"))


def attrs(r, req):
    """Metadata of a field; only "required" has a meaning."""
    items = [[w("required")]] if req else []
    if r.random() < 0.15:
        for k in r.sample(["id", "deprecated", "key", "Required", "hash", "priority"], r.choice([1, 2])):
            items.insert(r.randint(0, len(items)), [w(k)] + r.choice([[], [p(":"), num(r, 1)], [p(":"), st("required")]]))
    out = []
    for k, x in enumerate(items):
        out += [p("," if k else "(")] + x
    return out + [p(")")] if items else []


class Schema:
    """types: records; a field is [id, n, type, def tokens, required, default bytes or name];
    a type is ("b", name) or (kind, index)."""

    def __init__(self, r, wide=False):
        self.r = r
        self.types = []
        nss = r.sample(NSS, r.choice([1, 1, 2, 3]))
        names = set()
        for k, pool, n in (("enum", ENUMS, r.choice([0, 1, 2])), ("table", TABLES, r.choice([1, 2, 3, 4])), ("union", UNIONS, r.choice([0, 1, 1, 2]))):
            for _ in range(n):
                ns, x = r.choice(nss), r.choice(pool)
                if (tuple(ns), x) in names:
                    continue
                names.add((tuple(ns), x))
                self.types.append({"k": k, "ns": ns, "id": x})
        for j, t in enumerate(self.types):
            if t["k"] == "enum":
                self.enum(t)
            elif t["k"] == "union":
                cands = [q for q, x in enumerate(self.types) if x["k"] == "table" and x["ns"] == t["ns"]]
                if not cands:
                    t["k"] = "gone"
                    continue
                cands = r.sample(cands, r.randint(1, len(cands)))
                t["m"] = []
                nxt = 1
                for q in cands:
                    exp = None
                    if r.random() < 0.3:
                        nxt += r.choice([0, 1, 5, 60])
                        exp = nxt
                    if nxt > 255:
                        break
                    t["m"].append([q, nxt, exp])
                    nxt += 1
        for j, t in enumerate(self.types):
            if t["k"] == "table":
                n = r.choice([0, 1, 2, 3, 4, 6, 8]) if not wide else r.choice([40, 70])
                if wide == 2:       # slots beyond eight bits
                    n, wide = 265, 1
                ids = r.sample(FIELDS, min(n, len(FIELDS))) + ["w%d" % q for q in range(n - len(FIELDS))]
                t["f"] = [self.field(j, x) for x in ids]

    def enum(self, t, base=None):
        r = self.r
        t["base"] = base or r.choice(INTS)
        lo, hi = limits(t["base"])
        ids = r.sample(VARS, r.choice([1, 2, 3, 5]))
        t["m"], used, nxt = [], set(), 0
        for q, x in enumerate(ids):
            exp = None
            left = len(ids) - q
            if r.random() < 0.4 or nxt in used or nxt > hi:
                exp = min(r.choice([lo, hi, 0, 1, lo + 1, hi - 1, r.randint(lo, hi)]), hi - left)
                while exp in used:
                    exp = r.randint(lo, min(hi - left, lo + 200))
                nxt = exp
            used.add(nxt)
            t["m"].append([x, nxt, exp])
            nxt += 1

    def default(self, t):
        """A default value of a scalar type: its tokens and its bytes."""
        r = self.r
        if t == "bool":
            b = r.random() < 0.5
            de, dv = [w("true" if b else "false")], [int(b)]
        elif t in BITS:
            lo, hi = limits(t)
            v = r.choice([lo, hi, 0, 1, lo + 1, hi - 1, r.randint(lo, hi)])
            de, dv = [num(r, v)], le(t, v)
        else:
            q = r.random()
            pk = "<f" if size(t) == 4 else "<d"
            if q < 0.1:
                de, dv = [w("nan")], list(struct.pack(pk, float("nan")))
            elif q < 0.2:
                de, dv = [w("inf")], list(struct.pack(pk, float("inf")))
            elif q < 0.3:
                neg, what = r.random() < 0.7, r.choice(["inf", "inf", "nan"])
                de, dv = [fl(neg, 10, [], 0, 0, what)], list(struct.pack(pk, float("-" * neg + what)))
            elif q < 0.4:
                de, dv = [i(False, 10, [4, 2])], list(struct.pack(pk, 42.0))
            else:
                ds, fr, e = r.choice(FLOATS if r.random() < 0.5 else EDGES[size(t)])
                neg = r.random() < 0.4
                v = float("%s%se%d" % ("-" if neg else "", "".join(map(str, ds)), e - fr))
                de, dv = [fl(neg, 10, ds, fr, e)], list(struct.pack(pk, v))
        return de, dv

    @staticmethod
    def every(r):
        """Every type of field in every form there is."""
        s = Schema.__new__(Schema)
        s.r = r
        s.types = [{"k": "enum", "ns": [], "id": "Kind%d" % q} for q in range(len(INTS))]
        for t, base in zip(s.types, INTS):
            s.enum(t, base)
        e = len(s.types)
        tab = lambda n, fs: s.types.append({"k": "table", "ns": [], "id": n, "f": [["f%d" % q] + list(f) for q, f in enumerate(fs)]})
        tab("Alpha", [[0, ("b", "string"), None, False, None]])
        tab("Beta", [[0, ("b", t), None, False, None] for t in SCALARS])
        tab("Gamma", [[0, ("b", t), d, False, v] for t in SCALARS for d, v in (s.default(t), s.default(t))])
        tab("Delta", [[0, ("b", t), d, True, v] for t in SCALARS for d, v in (s.default(t), (None, None))])
        tab("Epsilon", [[n, ("b", t), None, q, None] for t in SCALARS for n, q in ((1, False), (1, True), (2, False))])
        named = lambda q: r.choice(s.types[q]["m"])[0]
        tab("Zeta", [[n, ("enum", q), None, z, None] for q in range(e) for n, z in ((0, False), (0, True), (1, False))]
            + [[0, ("enum", q), [w(x)], z, x] for q in range(e) for x, z in ((named(q), False), (named(q), True))])
        s.types.append({"k": "union", "ns": [], "id": "Any", "m": [[e, 1, None], [e + 1, 7, 7]]})
        u = len(s.types) - 1
        tab("Eta2", [[n, ty, None, z, None] for ty in (("b", "string"), ("table", e)) for n in (0, 1, 2) for z in (False, True)]
            + [[0, ("union", u), None, z, None] for z in (False, True)])
        return s

    def field(self, j, x):
        r = self.r
        refs = [(t["k"], q) for q, t in enumerate(self.types) if t["k"] in ("table", "enum", "union") and self.visible(j, q)]
        n, de, dv = 0, None, None
        y = r.random()
        if y < 0.4 or not refs:
            ty = ("b", r.choice(SCALARS))
            n = r.choice([0, 0, 0, 1, 1, 2]) if r.random() < 0.4 else 0
            if n == 0 and r.random() < 0.5:
                de, dv = self.default(ty[1])
        elif y < 0.55:
            ty = ("b", "string")
            n = r.choice([0, 0, 1, 2])
        else:
            ty = r.choice(refs)
            if ty[0] != "union":
                n = r.choice([0, 0, 1, 1, 2]) if r.random() < 0.5 else 0
            if ty[0] == "enum" and n == 0 and r.random() < 0.5:
                dv = r.choice(self.types[ty[1]]["m"])[0]
                de = [w(dv)]
        req = r.random() < 0.2
        # a required table must not lead back to itself
        if req and ty[0] in ("table", "union") and n == 0:
            qs = [ty[1]] if ty[0] == "table" else [m[0] for m in self.types[ty[1]]["m"]]
            req = any(q < j for q in qs)
        elif ty[0] == "union" and any(m[0] < j for m in self.types[ty[1]]["m"]):
            req = r.random() < 0.25
        return [x, n, ty, de, req, dv]

    def visible(self, j, q):
        a, b = self.types[j], self.types[q]
        return a["ns"] == b["ns"] or b["ns"] != []

    def ref(self, j, q):
        a, b = self.types[j], self.types[q]
        if a["ns"] == b["ns"] and (not b["ns"] or self.r.random() < 0.6 or len(b["ns"]) == 0):
            return [w(b["id"])]
        return dotted(b["ns"] + [b["id"]])

    def cut(self):
        """An older version: trailing optional fields, members and values missing."""
        r = self.r
        c = Schema.__new__(Schema)
        c.r = r
        c.types = [dict(t) for t in self.types]
        for q, t in enumerate(c.types):
            if t["k"] == "union":
                least = 1
                for j, x in enumerate(self.types):
                    if x["k"] == "table" and any(f[2] == ("union", q) and f[4] for f in x["f"]):
                        least = max(least, 1 + min(k for k, m in enumerate(t["m"]) if m[0] < j))
                t["m"] = t["m"][:r.randint(least, len(t["m"]))]
            elif t["k"] == "enum":
                used = [f[5] for x in self.types if x["k"] == "table" for f in x["f"] if f[2] == ("enum", q) and f[5] is not None]
                least = max([k + 1 for k, m in enumerate(t["m"]) if m[0] in used] + [1])
                t["m"] = t["m"][:r.randint(least, len(t["m"]))]
        for t in c.types:
            if t["k"] == "table":
                n = len(t["f"])
                while n > 0 and not t["f"][n - 1][4] and r.random() < 0.6:
                    n -= 1
                t["f"] = t["f"][:n]
        return c

    def decl(self, j):
        r, t = self.r, self.types[j]
        doc = [d(" about %s" % t["id"])] if r.random() < 0.2 else []
        if t["k"] == "table":
            out = doc + [w("table"), w(t["id"]), p("{")]
            for x, n, ty, de, req, _ in t["f"]:
                out += [w(x), p(":")] + [p("[")] * n + ([w(ty[1])] if ty[0] == "b" else self.ref(j, ty[1])) + [p("]")] * n
                out += [p("=")] + de if de else []
                out += attrs(r, req)
                out += [p(";")]
            return out + [p("}")]
        out = doc + [w("enum"), w(t["id"]), p(":"), w(t["base"]), p("{")] if t["k"] == "enum" else doc + [w("union"), w(t["id"]), p("{")]
        for k, (x, _, exp) in enumerate(t["m"]):
            out += [p(",")] if k else []
            out += [w(x if t["k"] == "enum" else self.types[x]["id"])]
            out += [p("="), num(r, exp)] if exp is not None else []
        return out + [p("}")]

    def tokens(self):
        r = self.r
        js = [j for j, t in enumerate(self.types) if t["k"] != "gone"]
        r.shuffle(js)
        js.sort(key=lambda j: self.types[j]["ns"] != [])
        out, ns = [], []
        for j in js:
            t = self.types[j]
            if t["ns"] != ns:
                out += [w("namespace")] + dotted(t["ns"]) + [p(";")]
                ns = t["ns"]
            out += self.decl(j)
        return out

    def path(self, j):
        return self.types[j]["ns"] + [self.types[j]["id"]]

    def tables(self):
        return [j for j, t in enumerate(self.types) if t["k"] == "table"]

    # ---- values
    def scalar(self, t, dv=None):
        r = self.r
        if dv is not None and r.random() < 0.25:
            return list(dv)
        if t == "bool":
            return [r.randint(0, 1)]
        n = size(t)
        if t in BITS:
            lo, hi = limits(t)
            return le(t, r.choice([0, 1, lo, hi, hi - 1, lo + 1, r.randint(lo, hi), r.randint(lo, hi)]))
        q = r.random()
        pk = "<f" if n == 4 else "<d"
        if q < 0.5:
            return list(struct.pack(pk, r.choice([0.0, -0.0, 1.5, -2.25, float("inf"), float("-inf"), float("nan"), 1e-30, 3.0e38, 42.0])))
        return [r.randint(0, 255) for _ in range(n)]

    def value(self, n, ty, depth, dv=None):
        r = self.r
        if n:
            k = r.choice([0, 1, 2, 3]) if (depth > 0 and self.left > 0) or ty[0] == "b" else 0
            if n == 1 and ty[0] == "b" and r.random() < 0.1:
                k = r.choice([7, 8, 9, 20])
            return [self.value(n - 1, ty, depth) for _ in range(k)]
        if ty == ("b", "string"):
            return list(r.choice(["", "a", "hello", "é∑", "\0x", "twelve bytes", "x" * r.randint(0, 40)]).encode())
        if ty[0] == "b":
            return self.scalar(ty[1], dv)
        t = self.types[ty[1]]
        if ty[0] == "enum":
            return dv if dv is not None and r.random() < 0.3 else r.choice(t["m"])[0]
        return self.table(ty[1], depth - 1)

    def table(self, j, depth=None):
        """A value; the fields its arguments must have are there."""
        r, t = self.r, self.types[j]
        if depth is None:
            depth, self.left = 4, r.choice([20, 60])      # a budget of tables and vectors
        out = []
        alls = any(f[4] and not (f[1] == 0 and (f[2][0] == "enum" or f[2][0] == "b" and f[2][1] != "string")) for f in t["f"])
        some = r.choice([0.2, 0.7, 0.95])
        for x, n, ty, de, req, dv in t["f"]:
            scal = n == 0 and (ty[0] == "enum" or ty[0] == "b" and ty[1] != "string")
            must = req or scal and alls
            if not scal:
                self.left -= 1
            if not must and (r.random() > some or ((depth <= 0 or self.left < 0) and not scal)):
                continue
            if ty[0] == "union":
                m = self.types[ty[1]]["m"]
                q = r.choice([x for x in m if x[0] < j] if req else m)
                if not req and r.random() < 0.15:
                    out.append({"id": x, "v": {"m": "None", "v": []}})
                elif not req and (r.random() < 0.1 or depth <= 0):
                    out.append({"id": x, "v": {"m": self.types[q[0]]["id"], "v": []}})
                else:
                    out.append({"id": x, "v": {"m": self.types[q[0]]["id"], "v": [self.table(q[0], depth - 1)]}})
            else:
                out.append({"id": x, "v": self.value(n, ty, depth, dv)})
        return {"f": out, "raw": []}

    def hostile(self, j, val, depth=0):
        """Some of the slots replaced: unknown members, scalars of any bytes."""
        r, t = self.r, self.types[j]
        s = 4
        for x, n, ty, de, req, dv in t["f"]:
            if ty[0] == "union":
                if r.random() < 0.5:
                    val["raw"].append({"s": s, "v": [r.choice([0, 1, 2, 3, 9, 254, 255, r.randint(0, 255)])]})
                s += 4
                continue
            if n == 0 and ty[0] == "enum" and r.random() < 0.6:
                e = self.types[ty[1]]
                vs = [m[1] for m in e["m"]]
                lo, hi = limits(e["base"])
                v = r.choice([r.choice(vs) + r.choice([-1, 1, 256]), r.randint(lo, hi), lo, hi])
                val["raw"].append({"s": s, "v": le(e["base"], v)})
            elif n == 0 and ty == ("b", "bool") and r.random() < 0.5:
                val["raw"].append({"s": s, "v": [r.randint(0, 255)]})
            s += 2
            if n > 0 or ty[0] in ("table",) or ty == ("b", "string"):
                if r.random() < 0.05:
                    val["raw"].append({"s": s - 2, "v": list(r.choice([0, 1, 2, 3, 4, 5, 8, 12, 13, 40, 0x7FFFFFFF, 0xFFFFFFFF]).to_bytes(4, "little"))})
        if r.random() < 0.15:
            val["raw"].append({"s": s + r.choice([0, 2, 6]), "v": [r.randint(0, 255) for _ in range(r.choice([1, 2, 4, 8]))]})
        for g in val["f"]:
            n, ty = next((q[1], q[2]) for q in t["f"] if q[0] == g["id"])
            if ty[0] == "table":
                self.within(n, ty[1], g["v"], depth + 1)
            elif ty[0] == "union" and g["v"]["v"]:
                if r.random() < 0.15:
                    g["v"]["v"] = []
                else:
                    q = next(m[0] for m in self.types[ty[1]]["m"] if self.types[m[0]]["id"] == g["v"]["m"])
                    self.hostile(q, g["v"]["v"][0], depth + 1)
        val["f"] = [g for g in val["f"] if r.random() < 0.93]
        return val

    def within(self, n, j, v, depth):
        if n == 0:
            self.hostile(j, v, depth)
        else:
            for x in v:
                self.within(n - 1, j, x, depth)

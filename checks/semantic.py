"""Random schemas: mostly right, sometimes wrong; the specification says which."""
from syntax import w, p, d, st, i, f, digits, BUILTIN

FIELDS = ["aa", "bb", "cc", "dd", "ee_ff", "x1", "value", "left"]
VARS = ["Red", "Green", "Blue", "Zero", "Last"]
NSS = [[], [], ["n"], ["n", "k"], ["h"], ["n", "k", "z"]]
NAMES = {"table": ["Alpha", "Beta", "Gamma", "Delta"], "enum": ["Color", "Kind"], "union": ["Any", "Some2"], "rpc": ["Greeter", "Store"]}
BITS = {"byte": -8, "int8": -8, "ubyte": 8, "uint8": 8, "short": -16, "int16": -16, "ushort": 16, "uint16": 16, "int": -32, "int32": -32,
        "uint": 32, "uint32": 32, "long": -64, "int64": -64, "ulong": 64, "uint64": 64}
INTS = sorted(BITS)


MODES = ["client", "server", "bidi"]
METHODS = ["get", "put", "ListAll", "watch_it", "Del", "GetURL", "HTTPGet", "get2nd", "V2List", "Type", "match", "x_Y", "IOError", "aB1c"]


def near(r, s):
    """A word like s, but not s."""
    k = r.randint(0, len(s))
    return r.choice([s[:k] + r.choice(["x", "s", " ", "-", "_"]) + s[k:], s[:-1], s[1:], s.upper(), s.capitalize(), "", "none", s + "," + r.choice(MODES),
                     s + s, s[::-1], s + " ", " " + s, s[:k], s + "_streaming"])


def _num(r, v):
    base = 10 if r.random() < 0.8 else 16
    return i(v < 0, base, digits(abs(v), base))


def around(r, bits, wild):
    """A value near the limits of a type; wild: perhaps beyond."""
    lo, hi = (-(1 << (-bits - 1)), (1 << (-bits - 1)) - 1) if bits < 0 else (0, (1 << bits) - 1)
    v = r.choice([lo, hi, 0, 1, lo + 1, hi - 1, r.randint(lo, hi)])
    if wild and r.random() < 0.5:
        v = r.choice([lo - 1, hi + 1, -1 if lo == 0 else hi + 2, hi * 2 + 1])
    return v


def dotted(path):
    out = []
    for k, x in enumerate(path):
        if k:
            out.append(p("."))
        out.append(w(x))
    return out


class Schemas:
    def __init__(self, r, wrong=0.15):
        self.r, self.wrong = r, wrong

    def bad(self):
        return self.r.random() < self.w

    def ref(self, ns, kinds):
        """A reference to a type, usually a declared one."""
        r = self.r
        cands = [(n, x) for k, n, x in self.types if k in kinds and (n == ns or n)]
        if self.bad() or not cands:
            return dotted(r.choice([["Nope"], ["n", "Nope"], [r.choice(sum(NAMES.values(), []))], ["n", "Alpha"], ["k", "Alpha"], ["n", "k", "z", "q", "Beta"]]))
        n, x = r.choice(cands)
        if n == ns and (not n or r.random() < 0.6):
            return [w(x)]
        return dotted(n + [x]) if n else [w(x)]

    def attrs(self, own):
        """Metadata: own, an item or none, among others without a meaning here."""
        r = self.r
        items = [own] if own else []
        if r.random() < 0.35:
            for k in r.sample(["idempotent", "priority", "note", "deprecated", "key", "Required", "stream", "hash"], r.choice([1, 1, 2, 3])):
                items.insert(r.randint(0, len(items)), [w(k)] + r.choice([[], [], [p(":"), _num(r, 3)], [p(":"), st("bidi")], [p(":"), st("required")], [p(":"), st("client")]]))
        if not items:
            return []
        out = [p("(")]
        for k, x in enumerate(items):
            out += ([p(",")] if k else []) + x
        return out + [p(")")]

    def docs(self):
        return [d(" doc %d" % k) for k in range(self.r.choice([0, 0, 0, 1, 2]))]

    def fieldtype(self, ns):
        r = self.r
        x = r.random()
        if x < 0.35:
            return [w(r.choice(BUILTIN))], None
        if x < 0.75:
            return self.ref(ns, ["table", "enum", "union", "table"]), None
        kinds = ["table", "enum"] if not self.bad() else ["union"]
        inner = [w(r.choice(BUILTIN))] if r.random() < 0.4 else self.ref(ns, kinds)
        n = r.choice([1, 1, 2])
        return [p("[")] * n + inner + [p("]")] * n, None

    def field(self, ns, name):
        r = self.r
        out = self.docs() + [w(name), p(":")]
        x = r.random()
        if x < 0.2:
            t = r.choice(INTS)
            out += [w(t), p("="), _num(r, around(r, BITS[t], self.bad()))]
        elif x < 0.28:
            out += [w(r.choice(["float", "double"])), p("="), r.choice([f(False, 10, [1, 5], 1, 0), f(True, 10, [2], 0, 3), w("nan"), w("inf"), _num(r, 7)])]
        elif x < 0.33:
            out += [w("bool"), p("="), w(r.choice(["true", "false"])) if not self.bad() else w("Red")]
        elif x < 0.45 and any(k == "enum" for k, _, _ in self.types):
            e = self.ref(ns, ["enum"])
            out += e + [p("="), w(r.choice(self.enumvars.get(e[-1]["s"], VARS)) if not self.bad() else r.choice(VARS + ["Nope", "true"]))]
        else:
            out += self.fieldtype(ns)[0]
            if self.bad():
                out += [p("="), r.choice([_num(r, 1), f(False, 10, [1, 5], 1, 0), w("true"), w("Red"), w("nan")])]
        return out + self.attrs([w("required")] if r.random() < 0.1 else None) + [p(";")]

    def table(self, ns, name):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4])
        names = r.sample(FIELDS, n)
        if n > 1 and self.bad():
            names[-1] = names[0]
        out = self.docs() + [w("table"), w(name)] + (self.attrs(None) if r.random() < 0.2 else []) + [p("{")]
        for x in names:
            out += self.field(ns, x)
        return out + [p("}")]

    def enum(self, ns, name):
        r = self.r
        t = r.choice(INTS) if not self.bad() else r.choice(["float", "bool", "string", "Alpha"])
        names = list(self.enumvars[name])
        if self.bad():
            names.append(r.choice(names))
        out = self.docs() + [w("enum"), w(name), p(":"), w(t), p("{")]
        used = set()
        nxt = 0
        bits = BITS.get(t, -8)
        lo, hi = (-(1 << (-bits - 1)), (1 << (-bits - 1)) - 1) if bits < 0 else (0, (1 << bits) - 1)
        for k, x in enumerate(names):
            if k:
                out.append(p(","))
            out += self.docs() + [w(x)]
            left = len(names) - k
            if r.random() < 0.4 or nxt in used or nxt > hi:
                v = around(r, bits, self.bad())
                if not self.bad():
                    v = min(v, hi - left)
                    while v in used:
                        v = r.randint(lo, min(hi - left, lo + 200))
                out += [p("="), _num(r, v)]
                nxt = v
            used.add(nxt)
            nxt += 1
        return out + ([p(",")] if r.random() < 0.2 else []) + [p("}")]

    def union(self, ns, name):
        r = self.r
        cands = [x for k, n, x in self.types if k == "table" and n == ns] or ["Nope"]
        ms = r.sample(cands, r.randint(1, len(cands)))
        if self.bad():
            ms.append(r.choice(cands + ["Color", "Any", "Nope"]))
        out = self.docs() + [w("union"), w(name), p("{")]
        nxt = 1
        for k, x in enumerate(ms):
            if k:
                out.append(p(","))
            out += self.docs() + [w(x)]
            if r.random() < 0.25:
                v = nxt + r.choice([0, 1, 5, 50]) if not self.bad() else r.choice([0, 255, 256, nxt - 1, -1])
                out += [p("="), _num(r, v)]
                nxt = v
            nxt += 1
        return out + [p("}")]

    def rpc(self, ns, name):
        r = self.r
        out = self.docs() + [w("rpc_service"), w(name), p("{")]
        ms = r.sample(METHODS, r.choice([1, 1, 2, 3]))
        if self.bad():
            ms.append(ms[0])
        for m in ms:
            kinds = ["table"] if not self.bad() else ["enum", "union"]
            out += self.docs() + [w(m), p("(")] + self.ref(ns, kinds) + [p(")"), p(":")] + self.ref(ns, ["table"])
            own = None
            if r.random() < 0.5:
                own = [w("streaming"), p(":"), st(r.choice(MODES) if r.random() >= 0.5 * (self.w > 0) or not self.bad() and r.random() < 0.8 else near(r, r.choice(MODES)))]
            out += self.attrs(own) + [p(";")]
        return out + [p("}")]

    def schema(self, rpc=False):
        """Declarations, each with its namespace."""
        r = self.r
        self.w = 0.0 if r.random() < 0.45 else self.wrong * r.choice([0.3, 1.0])
        self.types, self.enumvars = [], {}
        nss = r.sample(NSS, r.choice([1, 1, 2, 3]))
        if r.random() < 0.4:     # namespaces that have parts in common
            nss = [[r.choice(["n", "k"]) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))] for _ in range(r.choice([2, 3]))]
        plan = []
        for _ in range(r.choice([1, 2, 3, 4, 5, 6, 7])):
            k = r.choice(["table", "table", "table", "enum", "union", "rpc", "root"] if not rpc else ["table", "table", "rpc", "rpc", "enum", "union"])
            ns = r.choice(nss)
            if k == "root":
                plan.append((k, ns, None))
                continue
            x = r.choice(NAMES[k])
            if r.random() < 0.02 * (self.w > 0):
                x = r.choice(sum(NAMES.values(), []))
            if (k, ns, x) in [(a, b, c) for a, b, c in plan] and not self.bad():
                continue
            plan.append((k, ns, x))
            if k != "rpc":
                self.types.append((k, ns, x))
            if k == "enum":
                self.enumvars.setdefault(x, r.sample(VARS, r.choice([1, 2, 3, 4])))
        tabs = [(n, x) for k, n, x in self.types if k == "table"]
        out = []
        for k, ns, x in plan:
            if k == "enum" or (k in ("table", "rpc", "union") and x):
                if k == "enum":
                    self.enumvars.setdefault(x, VARS[:2])
                if k in ("union", "rpc") and self.w == 0 and not [t for t in tabs if t[0] == ns or k == "rpc"]:
                    continue
                if k == "rpc" and self.w == 0 and not [t for t in tabs if t[0] == ns or t[0]]:
                    continue
                out.append((ns, getattr(self, k)(ns, x)))
            elif k == "root":
                here = [t for t in tabs if t[0] == ns]
                if here and not self.bad():
                    out.append((ns, [w("root_type"), w(r.choice(here)[1]), p(";")]))
                elif self.w > 0:
                    out.append((ns, [w("root_type"), w(r.choice(["Nope", "Color", "Any"])), p(";")]))
        if self.w > 0 and r.random() < 0.1:
            out.append((r.choice(nss), r.choice([[w("struct"), w("S"), p("{"), w("a"), p(":"), w("int"), p(";"), p("}")],
                                                  [w("attribute"), w("a"), p(";")], [w("file_extension"), st("x"), p(";")],
                                                  [w("file_identifier"), st("abcd"), p(";")], [p("{"), p("}")]])))
        return out


def order(r, decls):
    """Another order of the same declarations: those of no namespace come first."""
    xs = list(decls)
    r.shuffle(xs)
    xs.sort(key=lambda x: x[0] != [])
    return xs


def tokens(r, decls):
    out, ns = [], []
    for n, toks in decls:
        if n != ns or (n and r.random() < 0.1):
            if n == []:
                raise ValueError
            out += [w("namespace")] + dotted(n) + [p(";")]
            ns = n
        out += toks
    if r.random() < 0.1:
        out += [w("namespace"), w("unused"), p(";")]
    return out


LINES = ["", " ", " doc", " two  spaces ", "/x", " // y", ' "quoted"', " tab\there", " é ∑", "\\", " \\n \\u{41}", " ; } table T {}", " #[x]", '"#', " last", " first", "\t", " {}", " */", "!"]


def comment(r, toks):
    """The tokens with more lines of documentation, wherever there may be some."""
    out, depth, paren, top = [], 0, 0, None

    def lines():
        return [d(r.choice(LINES) if r.random() < 0.7 else " %d" % r.randint(0, 99)) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5]))]
    start = True
    for t in toks:
        if start and t["t"] == "w":
            out += lines()
            if depth == 0:
                top = t["s"]
        start = start and t["t"] == "d"
        out.append(t)
        if t["t"] == "p":
            paren += (t["s"] in "([") - (t["s"] in ")]")
            depth += (t["s"] == "{") - (t["s"] == "}")
            if not paren and (t["s"] in "{};" or t["s"] == "," and top in ("enum", "union")):
                start = True
    return out

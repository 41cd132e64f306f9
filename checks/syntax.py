"""Texts of the schema language: as tokens (which the specification judges) and
as characters (which the real parser is given)."""

BUILTIN = ["bool", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "long", "ulong", "double",
           "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "string"]
NAMES = ["a", "b", "Foo", "foo_bar", "Bar2", "_x", "x_", "__", "A_1", "table", "tables", "struct", "enum", "union", "namespace",
         "root_type", "include", "includes", "attribute", "rpc_service", "file_identifier", "int", "int8_", "int32x", "string",
         "strings", "boolean", "bool", "nan", "nan_", "nanx", "inf", "infinity", "infinite", "inf_", "true", "true_", "trues", "false",
         "falsehood", "e5", "x1F", "p3", "self", "type", "ubyte_", "float64s", "N0", "Abc", "ABC_DEF"]


def w(s):
    return {"t": "w", "s": s}


def p(s):
    return {"t": "p", "s": s}


def d(s):
    return {"t": "d", "s": s}


def st(s):
    return {"t": "s", "s": s, "n": len(s) if s.isascii() else -1}


def i(neg, base, digits):
    return {"t": "i", "neg": neg, "base": base, "d": list(digits)}


def f(neg, base, digits, fr, x, kind="fin"):
    return {"t": "f", "neg": neg, "kind": kind, "base": base, "d": list(digits), "fr": fr, "x": x}


def digits(n, base):
    out = []
    while n:
        out.append(n % base)
        n //= base
    return out[::-1] or [0]


class Sentences:
    """Random sentences, with constants of every kind."""

    def __init__(self, r):
        self.r = r

    def name(self, no=()):
        while True:
            s = self.r.choice(NAMES)
            if s not in no:
                return s

    def opt(self, p_, f_):
        return f_() if self.r.random() < p_ else []

    def docs(self):
        r = self.r
        return [d(r.choice(["", " doc", " two  spaces ", "/x", " // y", ' "quoted"', " tab\there", " é ∑", "\\", " ; } table T {}"]))
                for _ in range(r.choice([0, 0, 0, 1, 2, 3]))]

    def path(self, builtin_first=True):
        r = self.r
        n = r.choice([1, 1, 1, 2, 3])
        out = []
        for k in range(n):
            if k:
                out.append(p("."))
            out.append(w(self.name(BUILTIN if k == 0 and not builtin_first else ())))
        return out

    def type(self):
        r = self.r
        x = r.random()
        if x < 0.5:
            return [w(r.choice(BUILTIN))]
        if x < 0.75:
            return self.path(False)
        return [p("[")] + self.type() + [p("]")]

    def int(self):
        r = self.r
        bits = r.choice([0, 1, 3, 7, 8, 15, 16, 31, 32, 33, 53, 63, 64, 65, 100, 126, 127])
        v = r.choice([r.getrandbits(bits) if bits else 0, (1 << bits) - 1, 1 << max(0, bits - 1)])
        base = r.choice([10, 10, 16])
        ds = [0] * r.choice([0, 0, 0, 1, 3]) + digits(v, base)
        return i(r.random() < 0.4, base, ds)

    def float(self):
        r = self.r
        if r.random() < 0.15:
            return f(r.random() < 0.5, 10, [], 0, 0, r.choice(["nan", "inf"]))
        if r.random() < 0.25:
            n = r.randint(1, 12)
            ds = [r.randint(0, 15) for _ in range(n)]
            return f(r.random() < 0.4, 16, ds, r.randint(0, n - 1), r.choice([0, 1, -1, 10, -20, 100, -300]))
        n = r.choice([1, 2, 5, 10, 17, 18, 25, 40])
        ds = [r.randint(0, 9) for _ in range(n)]
        return f(r.random() < 0.4, 10, ds, r.randint(0, n), r.choice([0, 0, 1, -1, 10, -10, 22, 40, 250, -250, -300, -320, -340]))

    def scalar(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return self.int()
        if x < 0.75:
            return self.float()
        return w(r.choice(["true", "false", "nan", "inf", "infinity"]))

    def string(self):
        return st(self.r.choice(["", "x", "abcd", "a b", "//no comment", "/// no doc", "a;b}", '\\"', "\\\\", 'a\\"b', "é", "file.fbs",
                                 "x" * 30, "line\nbreak", "tab\t", "{", "server", "0x12"]))

    def single(self):
        return self.string() if self.r.random() < 0.4 else self.scalar()

    def meta(self):
        r = self.r
        n = r.choice([0, 0, 0, 0, 1, 1, 2, 3])
        if n == 0:
            return [] if r.random() < 0.8 else [p("("), p(")")]
        out, keys = [p("(")], r.sample(NAMES, n)
        for k in range(n):
            if k:
                out.append(p(","))
            out.append(w(keys[k]))
            if r.random() < 0.6:
                out += [p(":"), self.single()]
        return out + [p(")")]

    def field(self):
        r = self.r
        out = self.docs() + [w(self.name()), p(":")] + self.type()
        x = r.random()
        if x < 0.3:
            out += [p("="), self.scalar()]
        elif x < 0.4:
            out += [p("="), w(self.name())]
        return out + self.meta() + [p(";")]

    def product(self, kind):
        out = self.docs() + [w(kind), w(self.name())] + self.meta() + [p("{")]
        for _ in range(self.r.choice([0, 1, 2, 3, 5])):
            out += self.field()
        return out + [p("}")]

    def variants(self):
        r = self.r
        out = [p("{")]
        n = r.choice([1, 1, 2, 3, 5])
        for k in range(n):
            if k:
                out.append(p(","))
            out += self.docs() + [w(self.name())]
            if r.random() < 0.4:
                out += [p("="), self.int()]
        return out + ([p(",")] if r.random() < 0.3 else []) + [p("}")]

    def rpc(self):
        out = self.docs() + [w("rpc_service"), w(self.name()), p("{")]
        for _ in range(self.r.choice([1, 1, 2, 3])):
            out += self.docs() + [w(self.name()), p("(")] + self.path() + [p(")"), p(":")] + self.path() + self.meta() + [p(";")]
        return out + [p("}")]

    def value(self, depth):
        r = self.r
        x = r.random()
        if depth == 0 or x < 0.6:
            return [self.single()]
        if x < 0.8:
            return self.object(depth - 1)
        out = [p("[")]
        for k in range(r.choice([0, 1, 2, 3])):
            if k:
                out.append(p(","))
            out += self.value(depth - 1)
        return out + [p("]")]

    def object(self, depth=3):
        r = self.r
        out = self.docs() + [p("{")]
        n = r.choice([0, 1, 2, 3])
        for k, key in enumerate(r.sample(NAMES, n)):
            if k:
                out.append(p(","))
            out += [w(key), p(":")] + self.value(depth)
        return out + [p("}")]

    def element(self):
        r = self.r
        k = r.choice(["table"] * 6 + ["struct", "struct", "enum", "enum", "enum", "union", "union", "namespace", "namespace", "root",
                                      "attr", "ext", "ident", "rpc", "rpc", "obj"])
        if k in ("table", "struct"):
            return self.product(k)
        if k == "enum":
            return self.docs() + [w("enum"), w(self.name()), p(":")] + self.type() + self.meta() + self.variants()
        if k == "union":
            return self.docs() + [w("union"), w(self.name())] + self.meta() + self.variants()
        if k == "namespace":
            return self.docs() + [w("namespace")] + self.path() + [p(";")]
        if k == "root":
            return self.docs() + [w("root_type"), w(self.name()), p(";")]
        if k == "attr":
            return self.docs() + [w("attribute"), w(self.name()) if r.random() < 0.5 else self.string(), p(";")]
        if k == "ext":
            return self.docs() + [w("file_extension"), self.string(), p(";")]
        if k == "ident":
            return self.docs() + [w("file_identifier"), st(r.choice(["abcd", "A B!", "////", "1234"])), p(";")]
        if k == "rpc":
            return self.rpc()
        return self.object()

    def schema(self):
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            out += self.docs() + [w("include"), st(r.choice(["x", "a/b.fbs", "../c d.fbs", "é.fbs"])), p(";")]
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            out += self.element()
        return out


SPACES = [" ", "  ", "\n", "\t", "\r\n", "\n\n  ", "// c\n", " // table X { }\n  ", "//\n", "//;\n", "// /// d\n", '// "\n', "//x\r\n", "\n// one\n// two\n"]
HEXD = "0123456789abcdef"


def literal(r, t):
    """One spelling of a constant."""
    if t["t"] == "s":
        return '"' + t["s"] + '"'
    sign = "-" if t["neg"] else r.choice(["", "", "", "+"])
    if t["t"] == "f" and t["kind"] != "fin":
        return ("-" if t["neg"] else "+") + ("nan" if t["kind"] == "nan" else r.choice(["inf", "infinity"]))
    ds = "".join(HEXD[x] for x in t["d"])
    if t["base"] == 16:
        ds = "".join(r.choice([c, c.upper()]) for c in ds)
    pre = r.choice(["0x", "0X"]) if t["base"] == 16 else ""
    if t["t"] == "i":
        return sign + pre + ds
    whole, frac = ds[:len(ds) - t["fr"]], ds[len(ds) - t["fr"]:]
    x = t["x"]
    exp = r.choice("eE" if t["base"] == 10 else "pP") + (r.choice(["+", ""]) if x >= 0 else "") + str(x)
    if x == 0 and r.random() < 0.7:
        exp = ""
    if frac == "" and exp != "" and r.random() < 0.5:
        return sign + pre + whole + exp
    return sign + pre + whole + "." + frac + exp


def wordy(t):
    return t["t"] in "wif"


def render(r, toks, loose=False):
    """The characters of a text; loose: a separator everywhere."""
    style = r.choice(["dense", "space", "any", "any"])
    out = []

    def gap(must):
        if style == "dense" and not loose:
            return " " if must else ""
        if style == "space":
            return " "
        n = r.choice([0, 1, 1, 2, 3])
        s = "".join(r.choice(SPACES) for _ in range(n))
        return s if s or not (must or loose) else r.choice(SPACES)

    for k, t in enumerate(toks):
        prev = toks[k - 1] if k else None
        must = prev is not None and ((wordy(prev) and wordy(t)) or (prev["t"] == "w" and prev["s"] in ("include", "attribute") and t["t"] == "s"))
        out.append(gap(must))
        if t["t"] == "d":
            out.append("///" + t["s"] + r.choice(["\n", "\n", "\r\n"]))
        elif t["t"] in "wp":
            out.append(t["s"])
        else:
            out.append(literal(r, t))
    tail = gap(False)
    return "".join(out) + tail + (r.choice(["", "// end", "//"]) if style == "any" else "")


def pool(r):
    s = Sentences(r)
    x = r.random()
    if x < 0.5:
        return p(r.choice(";:,.=(){}[]"))
    if x < 0.75:
        return w(s.name())
    if x < 0.85:
        return s.single()
    if x < 0.92:
        return w(r.choice(["table", "enum", "union", "namespace", "root_type", "include", "attribute", "rpc_service", "file_extension"]))
    return d(" doc")


def mutate(r, toks):
    """A few changes of single tokens."""
    t = [dict(x) for x in toks]
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.randrange(len(t) + 1)
        x = r.random()
        words = [n for n in range(len(t) - 1) if t[n]["t"] == t[n + 1]["t"] == "w"]
        if words and r.random() < 0.15:     # two words run together
            k = r.choice(words)
            t[k:k + 2] = [w(t[k]["s"] + t[k + 1]["s"])]
        elif not t or x < 0.25:
            t.insert(k, pool(r))
        elif x < 0.5:
            del t[min(k, len(t) - 1)]
        elif x < 0.65:
            t[min(k, len(t) - 1)] = pool(r)
        elif x < 0.8 and len(t) > 1:
            k = min(k, len(t) - 2)
            t[k], t[k + 1] = t[k + 1], t[k]
        elif x < 0.9:
            t.insert(k, dict(t[min(k, len(t) - 1)]))
        else:
            del t[k:]
    return t


def garble(r, text):
    """Changes of single characters: the outcome only has to be an outcome."""
    cs = list(text)
    alpha = " \n\t\r/\"\\;:,.=(){}[]+-0123456789xXeEpPabcfntTuU_é∑\u0000\u2028日"
    for _ in range(r.choice([1, 1, 2, 3, 8])):
        k = r.randrange(len(cs) + 1)
        x = r.random()
        if x < 0.4 or not cs:
            cs.insert(k, r.choice(alpha))
        elif x < 0.7:
            del cs[min(k, len(cs) - 1)]
        elif x < 0.9:
            cs[min(k, len(cs) - 1)] = r.choice(alpha)
        else:
            del cs[k:]
    return "".join(cs)


def plain(r, toks):
    """A readable text."""
    out = []
    for t in toks:
        if t["t"] == "d":
            out.append("\n///" + t["s"] + "\n")
        elif t["t"] in "wp":
            out.append(t["s"] + ("\n" if t["s"] in ";{}" else " "))
        else:
            out.append(literal(r, t) + " ")
    return "".join(out)

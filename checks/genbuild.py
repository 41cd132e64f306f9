"""Random builder scripts, seeded: bigger and odder than what TLC enumerates."""
SZ = {"bool": 1, "u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8}
TYPES = list(SZ)
SLICE = [t for t in TYPES if t != "bool"]
WORDS = ["", "a", "ab", "abc", "abcd", "hello", "é", "日本", "\U0001F600", "x" * 7, "y" * 8, "\0", "a\0b"]


def val(r, t):
    n = SZ[t]
    if t == "bool":
        return [r.randrange(2)]
    k = r.randrange(8)
    if k == 0:
        return [0] * n
    if k == 1:
        return [255] * n
    if k == 2:
        return [0] * (n - 1) + [128]
    if k == 3:
        return [255] * (n - 1) + [127]
    if k == 4 and t == "f32":
        return [0, 0, r.choice([128, 192]), r.choice([127, 255])]
    if k == 4 and t == "f64":
        return [0] * 6 + [r.choice([240, 248]), r.choice([127, 255])]
    if k == 5:
        return [r.randrange(1, 5)] + [0] * (n - 1)
    return [r.randrange(256) for _ in range(n)]


def deflt(r, t, v):
    k = r.randrange(4)
    if k == 0:
        return list(v)
    if k == 1:
        return [0] * SZ[t]
    if k == 2 and t in ("f32", "f64"):
        return v[:-1] + [v[-1] ^ 128]
    if k == 2 and t != "bool":
        w = list(v)
        w[r.randrange(len(w))] ^= 1 << r.randrange(8)
        return w
    return val(r, t)


def text(r, n=None):
    if n is None:
        if r.randrange(3):
            return r.choice(WORDS)
        n = r.choice([r.randrange(40), r.randrange(300)])
    return "".join(r.choice("abcdefghij é") for _ in range(n))


class Script:
    def __init__(self, r, maxnodes=250):
        self.r = r
        self.ops = []
        self.kind = []       # per handle
        self.nodes = []
        self.maxnodes = maxnodes

    def add(self, kind, nodes):
        self.kind.append(kind)
        self.nodes.append(nodes)
        return len(self.kind)

    def handle(self, kinds, budget):
        c = [i + 1 for i, k in enumerate(self.kind) if (kinds is None or k in kinds) and self.nodes[i] <= budget]
        if not c:
            return 0
        return self.r.choice(c[-8:] if self.r.randrange(3) else c)

    def string(self, n=None):
        r = self.r
        s = list(text(r, n).encode())
        if r.randrange(4) == 0:
            if r.randrange(2):
                s = [r.randrange(256) for _ in s]
            self.ops.append({"op": "cbstr", "s": s})
        else:
            self.ops.append({"op": "cstr", "s": s})
        return self.add("str", 1)

    def vector(self, t=None, n=None):
        r = self.r
        t = t or r.choice(TYPES)
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33]) if n is None else n
        e = [val(r, t) for _ in range(n)]
        k = r.randrange(4)
        if k == 0 and n <= 20:
            self.ops.append({"op": "svec", "t": t, "n": n})
            for x in e:
                self.ops.append({"op": "push", "t": t, "v": x})
            self.ops.append({"op": "evec", "t": t, "n": n})
        elif k == 1 and t != "bool":
            self.ops.append({"op": "cvecd", "t": t, "e": e})
        else:
            self.ops.append({"op": "cvec", "t": t, "e": e})
        return self.add("vec", 1)

    def strings(self, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5, 15, 16, 17, 18, 31]) if n is None else n
        xs = [text(r, r.randrange(9)) for _ in range(n)]
        if r.randrange(3) == 0:   # parts of one text
            t = text(r, 12)
            xs = [t[:r.randrange(len(t) + 1)] if r.randrange(3) else t[r.randrange(len(t)):] for _ in range(n)]
        self.ops.append({"op": "cvecs", "ss": [list(x.encode()) for x in xs]})
        return self.add("strs", 1)

    def refs(self, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 3, 5]) if n is None else n
        hs, tot = [], 1
        for _ in range(n):
            h = self.handle(["str", "vec", "tab", "tab"], self.maxnodes - tot)
            if h:
                hs.append(h)
                tot += self.nodes[h - 1]
        if r.randrange(2):
            self.ops.append({"op": "cvech", "hs": hs})
        else:
            self.ops.append({"op": "svec", "t": "off", "n": len(hs)})
            for h in hs:
                self.ops.append({"op": "pushh", "h": h})
            self.ops.append({"op": "evec", "t": "off", "n": len(hs)})
        return self.add("refs", tot)

    def table(self, nf=None, slots=None, types=None, scalars=False):
        r = self.r
        nf = r.choice([0, 1, 2, 3, 4, 6, 9]) if nf is None else nf
        if slots is None:
            span = r.choice([nf, nf + 2, nf * 3 + 2])
            slots = r.sample(range(span), min(nf, span))
            slots = [4 + 2 * s for s in slots]
        if r.randrange(3) == 0:
            slots = sorted(slots)
        self.ops.append({"op": "stab"})
        tot = 1
        for s in slots:
            k = r.randrange(5)
            h = self.handle(None, self.maxnodes - tot) if k <= 1 and not scalars else 0
            if h:
                self.ops.append({"op": "sloth", "s": s, "h": h})
                tot += self.nodes[h - 1]
                continue
            t = r.choice(types or TYPES)
            v = val(r, t)
            if k == 4:
                self.ops.append({"op": "slota", "s": s, "t": t, "v": v})
            else:
                self.ops.append({"op": "slot", "s": s, "t": t, "v": v, "d": deflt(r, t, v)})
        self.ops.append({"op": "etab"})
        return self.add("tab", tot)

    def fin(self, h=None):
        r = self.r
        h = h or self.handle(["tab"], 10 ** 9) or self.table(2)
        kind = r.choice(["plain", "sized", "min"])
        i = list(r.choice([b"", b"ABCD", b"\0\0\0\0", b"id42"])) if kind != "min" else []
        self.ops.append({"op": "fin", "h": h, "kind": kind, "id": i})


def mixed(r):
    s = Script(r)
    for _ in range(r.randrange(1, 12)):
        getattr(s, r.choice(["string", "vector", "strings", "refs", "table", "table"]))()
    s.fin(s.table())
    return s.ops


def wide(r):
    s = Script(r)
    for _ in range(r.randrange(4)):
        s.string()
    n = r.choice([10, 20, 60, 120])
    s.table(n)
    s.table(n, types=r.choice([["u64"], ["u8"], ["u16", "u64"], ["u8", "f64"], None]))
    s.fin(s.table(3))
    return s.ops


def huge(r):
    """wide tables whose sizes and slots need both bytes of a vtable entry"""
    s = Script(r)
    s.string(r.choice([0, 5]))
    n = r.choice([130, 400])
    top = r.choice([2 * n + 2, 1020, 4094])
    slots = [4 + 2 * i for i in range(n - 1)] + [max(top, 4 + 2 * n)]
    s.table(n, slots=slots, types=r.choice([["u64"], ["u8", "u32"], None]), scalars=True)
    s.fin(s.table(3))
    return s.ops


def long_(r):
    s = Script(r)
    for _ in range(r.randrange(1, 4)):
        k = r.randrange(3)
        if k == 0:
            s.string(r.choice([63, 64, 255, 256, 257, 1000]))
        elif k == 1:
            s.vector(None, r.choice([63, 64, 65, 127, 128, 255, 256, 257]))
        else:
            s.strings(r.choice([16, 17, 64, 65]))
    s.fin(s.table(4))
    return s.ops


def giant(r):
    """offsets that need more than 16 bits"""
    s = Script(r)
    s.table(3)
    s.string(r.choice([66000, 70001, 131072]))
    s.table(3, slots=[4, 6, 8])
    s.vector("u8", r.choice([0, 3]))
    s.fin(s.table(4))
    return s.ops


def vts(r):
    """many tables over few layouts"""
    s = Script(r)
    lays = []
    for _ in range(r.randrange(2, 5)):
        n = r.randrange(4)
        lays.append(([4 + 2 * x for x in r.sample(range(n + r.randrange(3)), n)],
                     [r.choice(["u8", "u16", "u32", "u64"]) for _ in range(n)]))
    for _ in range(r.randrange(3, 14)):
        if r.randrange(4) == 0:
            r.choice([s.string, s.vector])()
            continue
        sl, ty = r.choice(lays)
        s.ops.append({"op": "stab"})
        for a, t in zip(sl, ty):
            v = val(r, t)
            if r.randrange(4) == 0:
                s.ops.append({"op": "slot", "s": a, "t": t, "v": v, "d": deflt(r, t, v)})
            else:
                s.ops.append({"op": "slota", "s": a, "t": t, "v": v})
        s.ops.append({"op": "etab"})
        s.add("tab", 1)
    s.refs(5)
    s.fin(s.table(3))
    return s.ops


def many(r):
    """more layouts than anyone would keep at hand, each of them used again"""
    s = Script(r)
    n = r.choice([20, 40, 70, 140])
    lays = set()
    while len(lays) < n:
        k = r.choice([3, 4])
        lays.add((tuple(r.sample([4, 6, 8, 10, 12], k)), tuple(r.choice(["u8", "u16", "u32", "u64"]) for _ in range(k))))
    lays = sorted(lays)
    r.shuffle(lays)
    for sl, ty in lays + r.choice([lays, lays[::-1], r.sample(lays, n // 2)]):
        s.ops.append({"op": "stab"})
        for a, t in zip(sl, ty):
            s.ops.append({"op": "slota", "s": a, "t": t, "v": val(r, t)})
        s.ops.append({"op": "etab"})
        s.add("tab", 1)
    s.refs(5)
    s.fin(s.table(3))
    return s.ops


def deep(r):
    s = Script(r)
    h = s.string()
    for i in range(r.randrange(2, 30)):
        s.ops.append({"op": "stab"})
        s.ops.append({"op": "slot", "s": 4, "t": "u16", "v": [i, 0], "d": [0, 0]})
        s.ops.append({"op": "sloth", "s": r.choice([6, 8]), "h": h})
        s.ops.append({"op": "etab"})
        h = s.add("tab", i + 2)
    s.fin(h)
    return s.ops


def scalars(r):
    """W06: tables of scalar slots, required checks on written and unwritten ones"""
    s = Script(r)
    if r.randrange(2):
        s.table(r.randrange(4), scalars=True)
    n = r.choice([1, 1, 2, 3, 5, 8, 20])
    h = s.table(n, scalars=True)
    if r.randrange(3) == 0:
        x = s.string()
        s.ops.append({"op": "stab"})
        s.ops.append({"op": "sloth", "s": r.choice([4, 8]), "h": x})
        s.ops.append({"op": "slot", "s": 6, "t": "u8", "v": [r.randrange(2)], "d": [0]})
        s.ops.append({"op": "etab"})
        h = s.add("tab", 2)
    tabs = [i + 1 for i, k in enumerate(s.kind) if k == "tab"]
    pres = {}
    k = 0
    cur = None
    for op in s.ops:
        if op["op"] == "stab":
            cur = {}
        elif op["op"] in ("slot", "slota", "sloth"):
            cur[op["s"]] = op
        if op["op"] in ("cstr", "cbstr", "cvec", "cvecd", "cvecs", "cvech", "evec", "etab"):
            k += 1
            if op["op"] == "etab":
                pres[k] = cur
    # the table just finished, or an earlier one
    for _ in range(r.randrange(3)):
        x = r.choice(tabs)
        sl = list(pres[x]) or [4]
        # a slot the vtable has no entry for panics as well
        s.ops.append({"op": "req", "h": x, "s": r.choice(sl + [4, 6, 30])})
    s.fin(h)
    return s.ops


def protocol(r):
    """calls in any order, refused ones included, with resets"""
    ops, st, n, cur = [], "idle", 0, {}
    want, got, fin = 0, 0, False
    kinds = []

    def reset():
        nonlocal st, n, cur, fin
        ops.append({"op": "reset"})
        st, n, cur, fin = "idle", 0, {}, False
        kinds.clear()
    for _ in range(r.randrange(3, 16)):
        t = r.choice(SLICE)
        create = r.choice([
            {"op": "cstr", "s": list(b"abc")}, {"op": "cbstr", "s": [1, 255]},
            {"op": "cvec", "t": t, "e": [val(r, t)]}, {"op": "cvecd", "t": t, "e": [val(r, t)]},
            {"op": "cvecs", "ss": [[97]]}, {"op": "cvech", "hs": [n] if n else []},
            {"op": "stab"}, {"op": "svec", "t": t, "n": 1}])
        if st == "broken":
            if r.randrange(4):
                reset()
            else:
                ops.append(create)
            continue
        k = r.randrange(20)
        if k == 0:
            reset()
            continue
        if k == 1:
            ops.append({"op": "data"})
            if not fin:
                st = "broken"
            continue
        if k in (2, 3) and n:
            i = r.choice([[], [65, 66, 67, 68], [65, 66, 67, 68], [65], [65, 66, 67, 68, 69]])
            kind = r.choice(["plain", "sized"])
            ops.append({"op": "fin", "h": r.randrange(1, n + 1), "kind": kind, "id": i})
            if st != "idle" or fin or len(i) not in (0, 4):
                st = "broken"
            else:
                fin = True
            continue
        if fin:
            if r.randrange(2):
                reset()
            else:
                ops.append({"op": "data"})
            continue
        if st == "idle":
            if r.randrange(7) == 0:
                ops.append(r.choice([{"op": "etab"}, {"op": "evec", "t": t, "n": 0},
                                     {"op": "slot", "s": 4, "t": t, "v": val(r, t), "d": [0] * SZ[t]},
                                     {"op": "slota", "s": 4, "t": t, "v": val(r, t)}]))
                st = "broken"
                continue
            ops.append(create)
            if create["op"] == "stab":
                st, cur = "table", {}
            elif create["op"] == "svec":
                st, want, got, vt = "vector", 1, 0, create["t"]
            else:
                n += 1
        elif st == "table":
            if r.randrange(8) == 0:
                ops.append(create)
                st = "broken"
            elif r.randrange(3) == 0:
                ops.append({"op": "etab"})
                if cur.get("dup"):
                    st = "broken"
                else:
                    st = "idle"
                    n += 1
            else:
                s = r.choice([4, 6, 8, 10])
                if n and r.randrange(3) == 0:
                    ops.append({"op": "sloth", "s": s, "h": r.randrange(1, n + 1)})
                else:
                    ops.append({"op": "slota", "s": s, "t": t, "v": val(r, t)})
                if s in cur:
                    cur["dup"] = True
                cur[s] = True
        elif st == "vector":
            if r.randrange(5) == 0:
                ops.append(create)
                st = "broken"
            elif got < want:
                ops.append({"op": "push", "t": vt, "v": val(r, vt)})
                got += 1
            else:
                ops.append({"op": "evec", "t": vt, "n": want})
                st = "idle"
                n += 1
    return ops


def past(r):
    """calls whose remains must not matter after reset"""
    k = r.randrange(4)
    if k == 0:
        return protocol(r)
    ops = r.choice([mixed, vts, scalars])(r)
    if k == 1:
        return ops[:r.randrange(len(ops) + 1)]
    return ops


CAPS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4096]
PASTS = ["default", "new", "used", "aborted", "abvec", "tables", "clone"]


def hows(r, n, nops):
    out = [{"cap": 0, "past": "fresh", "cl": -1}]
    while len(out) < n:
        k = r.randrange(3)
        h = {"cap": r.choice(CAPS), "past": "fresh", "cl": -1}
        if k == 1:
            h["past"] = r.choice(PASTS)
        if k == 2:
            h["past"] = "ops"
            h["ops"] = past(r)
        if r.randrange(4) == 0:
            h["cl"] = r.randrange(nops + 1)
        out.append(h)
    return out

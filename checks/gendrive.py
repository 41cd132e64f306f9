"""Drivers of generated code: for each schema a Rust module that builds values
with the generated builders and reads bytes with the generated accessors, as it
is told in JSON. Compiled together with the generated code in a scratch package."""
import os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from common import *
import syntax as sx

RUST = {"bool": "bool", "byte": "i8", "int8": "i8", "ubyte": "u8", "uint8": "u8", "short": "i16", "int16": "i16", "ushort": "u16", "uint16": "u16",
        "int": "i32", "int32": "i32", "uint": "u32", "uint32": "u32", "long": "i64", "int64": "i64", "ulong": "u64", "uint64": "u64",
        "float": "f32", "float32": "f32", "double": "f64", "float64": "f64"}


def snake(s):
    s = re.sub(r"([a-z0-9])([A-Z])", r"\1_\2", s)
    s = re.sub(r"([A-Z])([A-Z][a-z])", r"\1_\2", s)
    return s.lower()


class Model:
    """The declarations of a (valid) token sequence, for the making of drivers only."""

    def __init__(self, toks):
        self.t, self.k, self.ns = [x for x in toks if x["t"] != "d"], 0, []
        self.decls = []
        while self.k < len(self.t):
            self.decl()
        self.by = {".".join(d["path"]): d for d in self.decls}
        for d in self.decls:
            if d["k"] == "table":
                for f in d["fields"]:
                    self.resolve(d, f)

    def peek(self):
        return self.t[self.k].get("s")

    def next(self):
        self.k += 1
        return self.t[self.k - 1]

    def until(self, s):
        while self.next().get("s") != s:
            pass

    def path(self):
        out = [self.next()["s"]]
        while self.k < len(self.t) and self.peek() == ".":
            self.next()
            out.append(self.next()["s"])
        return out

    def meta(self):
        keys = []
        if self.peek() == "(":
            while True:
                x = self.next()
                if x["t"] == "w":
                    keys.append(x["s"])
                if x.get("s") == ")":
                    break
        return keys

    def type(self):
        n = 0
        while self.peek() == "[":
            self.next()
            n += 1
        p = self.path()
        for _ in range(n):
            self.next()
        return n, p

    def decl(self):
        k = self.next()["s"]
        if k == "namespace":
            self.ns = self.path()
            self.next()
        elif k == "root_type":
            self.until(";")
        elif k == "rpc_service":
            self.until("}")
        else:
            name = self.next()["s"]
            d = {"k": k, "ns": self.ns, "path": self.ns + [name]}
            if k == "enum":
                self.next()
                d["base"] = self.type()[1][0]
            self.meta()
            self.next()   # {
            if k == "table":
                d["fields"] = []
                while self.peek() != "}":
                    f = {"id": self.next()["s"]}
                    self.next()
                    f["n"], f["p"] = self.type()
                    f["def"] = None
                    if self.peek() == "=":
                        self.next()
                        f["def"] = self.next()
                    f["req"] = "required" in self.meta()
                    self.next()
                    d["fields"].append(f)
            else:
                d["ids"] = []
                while self.peek() != "}":
                    d["ids"].append(self.next()["s"])
                    if self.peek() == "=":
                        self.next()
                        self.next()
                    if self.peek() == ",":
                        self.next()
            self.next()
            self.decls.append(d)

    def resolve(self, d, f):
        p = f["p"]
        if len(p) == 1 and p[0] == "string":
            f["k"] = "str"
        elif len(p) == 1 and p[0] in RUST:
            f["k"], f["t"] = "sc", RUST[p[0]]
        else:
            full = d["ns"] + p if len(p) == 1 else p
            f["to"] = ".".join(full)
            f["k"] = {"table": "tab", "enum": "enum", "union": "union"}[self.by[f["to"]]["k"]]
        f["scalar"] = f["n"] == 0 and f["k"] in ("sc", "enum")

    def tables(self):
        return [d for d in self.decls if d["k"] == "table"]

    def has_default(self, d):
        return all(f["scalar"] or not f["req"] for f in d["fields"])


def rust_path(mod, path, last=None):
    return "::".join([mod] + [snake(x) for x in path[:-1]] + [last or path[-1]])


def tag_path(mod, path, fn=None):
    """The companion of a union."""
    return "::".join([mod] + [snake(x) for x in path[:-1]] + ["butte_gen", fn or path[-1] + "Type"])


def driver(mod, m):
    ix = {".".join(d["path"]): k for k, d in enumerate(m.decls)}
    out = ["mod drv_%s {" % mod, "use super::support::*; use super::*; use std::convert::TryFrom;"]
    P = lambda d: rust_path(mod, d["path"])

    def make(f, n, x):
        if n > 0:
            return "{ let mut xs = Vec::new(); for y in arr(%s) { let z = %s; xs.push(z); } fbb.create_vector(&xs) }" % (x, make(f, n - 1, "y"))
        if f["k"] == "sc":
            return "<%s as Sc>::of(%s)" % (f["t"], x)
        if f["k"] == "str":
            return "{ let t = text(%s); fbb.create_string(&t) }" % x
        if f["k"] == "enum":
            return "e%d(%s)" % (ix[f["to"]], x)
        return "b%d(fbb, %s)" % (ix[f["to"]], x)

    def show(f, n, x):
        if n > 0:
            return "dvec!(%s, y => %s)" % (x, show(f, n - 1, "y"))
        if f["k"] == "sc":
            return "Sc::to(%s)" % x
        if f["k"] == "str":
            return "s(%s)" % x
        if f["k"] == "enum":
            return "n%d(%s)" % (ix[f["to"]], x)
        return "d%d(&%s, dep - 1)" % (ix[f["to"]], x)

    for k, d in enumerate(m.decls):
        if d["k"] in ("enum", "union"):
            ty = P(d) if d["k"] == "enum" else tag_path(mod, d["path"])
            fn = rust_path(mod, d["path"], "enum_name_" + snake(d["path"][-1])) if d["k"] == "enum" else tag_path(mod, d["path"], "enum_name_" + snake(d["path"][-1] + "Type"))
            base = RUST[d["base"]] if d["k"] == "enum" else "u8"
            ids = d["ids"] if d["k"] == "enum" else ["None"] + d["ids"]
            out.append("fn e%d(v: &Value) -> %s { match v.as_str().unwrap() { %s _ => panic!() } }" % (
                k, ty, "".join('"%s" => %s::%s,' % (x, ty, x) for x in ids)))
            out.append("fn n%d(e: %s) -> Value { json!(match e { %s }) }" % (k, ty, "".join('%s::%s => "%s",' % (ty, x, x) for x in ids)))
            out.append("fn en%d(v: &Value) -> Value { let mut m = vec![]; for e in [%s].iter() { let b = %s::from(*e);"
                       " m.push(json!({\"id\": n%d(*e), \"v\": Sc::to(b), \"c\": Sc::to(*e as %s), \"name\": %s(*e)})); }"
                       " let mut p = vec![]; for x in arr(&v[\"p\"]) { p.push(match %s::try_from(<%s as Sc>::of(x)) {"
                       " Ok(e) => json!({\"v\": x, \"r\": \"v\", \"id\": n%d(e)}), Err(_) => json!({\"v\": x, \"r\": \"e\"}) }); }"
                       " json!({\"r\": \"ok\", \"z\": std::mem::size_of::<%s>(), \"df\": n%d(Default::default()), \"m\": m, \"p\": p}) }" % (
                           k, ", ".join("%s::%s" % (ty, x) for x in ids), base, k, base, fn, ty, base, k, ty, k))
        if d["k"] != "table":
            continue
        # build
        o = ["fn b%d<'b>(fbb: &mut butte::FlatBufferBuilder<'b>, v: &Value) -> butte::WIPOffset<%s<&'b [u8]>> {" % (k, P(d))]
        args = P(d) + "Args"
        lit = []
        if m.has_default(d):
            o.append("let mut a = %s::default();" % args)
        for f in d["fields"]:
            fid = f["id"]
            if f["k"] == "union":
                u = m.by[f["to"]]
                mem = "{ let i = x[\"m\"].as_str().unwrap(); let y = &x[\"v\"][0]; match i { %s _ => panic!() } }" % "".join(
                    '"%s" => b%d(fbb, y).as_union_value(),' % (q, ix[".".join(u["ns"] + [q])]) for q in u["ids"])
                val = mem if f["req"] else "if arr(&x[\"v\"]).is_empty() { None } else { Some(%s) }" % mem
                if m.has_default(d):
                    o.append('if let Some(x) = given(v, "%s") { a.%s_type = e%d(&x["m"]); a.%s = %s; }' % (fid, snake(fid), ix[f["to"]], fid, val))
                elif f["req"]:
                    o.append('let t_%s = e%d(&given(v, "%s").unwrap()["m"]); let v_%s = { let x = given(v, "%s").unwrap(); %s };' % (fid, ix[f["to"]], fid, fid, fid, val))
                    lit += ["%s_type: t_%s" % (snake(fid), fid), "%s: v_%s" % (fid, fid)]
                else:
                    o.append('let t_%s = match given(v, "%s") { Some(x) => e%d(&x["m"]), None => e%d(&json!("None")) };'
                             ' let v_%s = match given(v, "%s") { Some(x) => %s, None => None };' % (fid, fid, ix[f["to"]], ix[f["to"]], fid, fid, val))
                    lit += ["%s_type: t_%s" % (snake(fid), fid), "%s: v_%s" % (fid, fid)]
            else:
                mk = make(f, f["n"], "x")
                if m.has_default(d):
                    o.append('if let Some(x) = given(v, "%s") { a.%s = %s; }' % (fid, fid, mk if f["scalar"] else "Some(%s)" % mk))
                elif f["scalar"] or f["req"]:
                    o.append('let v_%s = { let x = given(v, "%s").unwrap(); %s };' % (fid, fid, mk))
                    lit.append("%s: v_%s" % (fid, fid))
                else:
                    o.append('let v_%s = match given(v, "%s") { Some(x) => Some(%s), None => None };' % (fid, fid, mk))
                    lit.append("%s: v_%s" % (fid, fid))
        if not m.has_default(d):
            o.append("let a = %s { %s };" % (args, ", ".join(lit)))
        o.append("%s::create(fbb, &a) }" % P(d))
        out += o
        # dump
        out.append("fn d%d<B: AsRef<[u8]>>(t: &%s<B>, dep: i64) -> Value { if dep == 0 { return json!({\"f\": []}); } let mut f: Vec<Value> = vec![];" % (k, P(d)))
        for f in d["fields"]:
            fid, sn = f["id"], snake(f["id"])
            fn = "req" if f["req"] else "opt"
            if f["k"] == "union":
                u = m.by[f["to"]]
                arms = "".join('%s::%s(y) => json!({"m": "%s", "g": g, "v": d%d(&y, dep - 1)}),' % (P(u), q, q, ix[".".join(u["ns"] + [q])]) for q in u["ids"])
                out.append('f.push(ent2("%s", %s(t.%s_type(), |x| n%d(x)), %s(t.%s(), |x| { let g = n%d(x.get_type()); match x { %s } })));' % (fid, fn, sn, ix[f["to"]], fn, sn, ix[f["to"]], arms))
            else:
                out.append('f.push(ent("%s", %s(t.%s(), |x| %s)));' % (fid, fn, sn, show(f, f["n"], "x")))
        out.append("json!({\"f\": f}) }")
    # dispatch
    out.append("pub fn ops(v: &Value) -> Value { let op = v[\"op\"].as_str().unwrap(); let sp = v[\"sp\"].as_bool().unwrap_or(false); let dep = v[\"dep\"].as_i64().unwrap_or(9);"
               " match v[\"t\"].as_str().unwrap() {")
    for k, d in enumerate(m.decls):
        key = ".".join(d["path"])
        if d["k"] in ("enum", "union"):
            out.append('"%s" => en%d(v),' % (key, k))
            continue
        if d["k"] != "table":
            continue
        consts = []
        for f in d["fields"]:
            up = snake(f["id"]).upper()
            consts += (["%s::VT_%s_TYPE" % (P(d) + "::<&[u8]>", up)] if f["k"] == "union" else []) + ["%s::VT_%s" % (P(d) + "::<&[u8]>", up)]
        out.append('"%s" => match op {' % key)
        fin = 'match v["fid"].as_str() { None => if sp { fbb.finish_size_prefixed(o, None) } else { fbb.finish_minimal(o) }, i => if sp { fbb.finish_size_prefixed(o, i) } else { fbb.finish(o, i) } }; json!({"r": "ok", "b": fbb.finished_data().to_vec()})'
        out.append('"build" => { let mut fbb = butte::FlatBufferBuilder::new_with_capacity(v["cap"].as_u64().unwrap_or(0) as usize); let o = b%d(&mut fbb, &v["val"]); %s }' % (k, fin))
        out.append('"bare" => { let mut fbb = butte::FlatBufferBuilder::new(); let o = %sBuilder::new(&mut fbb).finish(); %s }' % (P(d), fin))
        out.append('"read" => placed(&bytes(&v["b"]), |b| { let t = if sp { butte::get_size_prefixed_root::<%s<&[u8]>, _>(b) } else { %s::get_root(b) };'
                   ' match t { Ok(t) => json!({"r": "ok", "d": d%d(&t, dep)}), Err(_) => json!({"r": "e"}) } }),' % (P(d), P(d), k))
        # one buffer, held in several ways; the table itself, copied and converted
        hold = ["if sp { butte::get_size_prefixed_root::<%s<_>, _>(%s) } else { %s::get_root(%s) }" % (P(d), h, P(d), h)
                for h in ("b", "b.to_vec()", "b.to_vec().into_boxed_slice()", "std::rc::Rc::<[u8]>::from(b)")]
        hold.append("if sp { butte::get_size_prefixed_root::<%s<_>, _>(b) } else { butte::get_root::<%s<_>, _>(b) }.map(|t| t.clone())" % (P(d), P(d)))
        hold.append("if sp { butte::Table::get_size_prefixed_root(b.to_vec()) } else { butte::Table::get_root(b.to_vec()) }.map(%s::from).map(butte::Table::from).map(%s::from)" % (P(d), P(d)))
        out.append('"hold" => placed(&bytes(&v["b"]), |b| { let a = vec![%s]; json!({"r": "ok", "a": a.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "d": a[0]["d"]}) }),' % ", ".join(
            'match %s { Ok(t) => json!({"r": "ok", "d": d%d(&t, dep)}), Err(_) => json!({"r": "e", "d": {"f": []}}) }' % (h, k) for h in hold))
        out.append('"vt" => { let vt: Vec<u64> = vec![%s]; json!({"r": "ok", "vt": vt}) },' % ", ".join(c + " as u64" for c in consts))
        out.append("_ => panic!() },")
    out.append("_ => panic!() } }")
    out.append("}")
    return "\n".join(out)


CARGO = """[package]
name = "gen"
version = "0.1.0"
edition = "2018"
autobins = false

[workspace]

[dependencies]
butte = { path = "/repo/butte" }
serde_json = "1"

%s
[profile.dev]
opt-level = 1
debug = false
debug-assertions = true
overflow-checks = true
incremental = false

[profile.dev.package.gen]
opt-level = 0
"""
ALLOW = "#![allow(warnings)]\n"


def _clean(prefix):
    deps = os.path.join(WORK, "target", "debug", "deps")
    for d in (deps, os.path.join(WORK, "target", "debug"), os.path.join(WORK, "target", "debug", ".fingerprint")):
        for n in os.listdir(d):
            if n.startswith(prefix) or n.startswith("gen-") and d.endswith(".fingerprint"):
                p = os.path.join(d, n)
                try:
                    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
                except OSError:
                    pass


def _cargo(d, args):
    p = subprocess.run(["cargo"] + args + ["--offline", "--quiet", "--keep-going"], cwd=d, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def compile_all(texts, drivers, ways=8, check=False):
    """texts: generated code, by schema; drivers: driver modules by schema (or None).
    Gives the executables and which schema is in which; compile errors by schema."""
    t0 = time.time()
    cargo_build("rt")     # the runtime crate, from the current tree
    d = os.path.join(workdir("gen"), "p%d" % len(os.listdir(workdir("gen"))))
    os.makedirs(os.path.join(d, "src"))
    shutil.copy(os.path.join(VERIF, "gen", "Cargo.lock"), d)
    shutil.copy(os.path.join(VERIF, "gen", "support.rs"), os.path.join(d, "src"))
    ways = max(1, min(ways, len(texts)))
    pre = "g%d_%d_" % (os.getpid(), len(os.listdir(workdir("gen"))))
    bins = [[k for k in range(len(texts)) if k % ways == w] for w in range(ways)]
    for k, t in enumerate(texts):
        with open(os.path.join(d, "src", "s%d.rs" % k), "w") as f:
            f.write(t)
    for w, ks in enumerate(bins):
        with open(os.path.join(d, "src", "%s%d.rs" % (pre, w)), "w") as f:
            f.write(ALLOW + ("#[macro_use] mod support;\n" if drivers else ""))
            for k in ks:
                f.write("mod s%d;\n" % k)
            if drivers:
                for k in ks:
                    f.write(drivers[k] + "\n")
                f.write("fn main() { support::run(|v| match v[\"s\"].as_u64().unwrap() { %s _ => panic!() }) }\n" % "".join("%d => drv_s%d::ops(v)," % (k, k) for k in ks))
            else:
                f.write("fn main() {}\n")
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(CARGO % "".join('[[bin]]\nname = "%s%d"\npath = "src/%s%d.rs"\nedition = "%s"\n' % (pre, w, pre, w, "2021" if w % 2 else "2018") for w in range(ways)))
    rc, out = _cargo(d, ["check" if check else "build"])
    exes = []
    if not check:
        for w in range(ways):
            src, dst = os.path.join(WORK, "target", "debug", "%s%d" % (pre, w)), os.path.join(d, "x%d" % w)
            if os.path.exists(src):
                shutil.move(src, dst)
            exes.append(dst)
    _clean(pre)
    log("compiled code of %d schemas in %.1f s (exit %d)" % (len(texts), time.time() - t0, rc))
    return rc, out, exes, {k: k % ways for k in range(len(texts))}

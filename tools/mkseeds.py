#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py (edits of
the source, a demonstration, what it breaks). Usage: mkseeds.py [ID...]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, edits, needs, breaks, main=None, kind="rt", files=None):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, kind=kind, files=files or {})


DEMO_RT = '''#!/bin/bash
# Builds and runs main.rs against the runtime crate of the tree it is started in.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs"
[ -e Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
butte = { path = "$PWD/butte" }
END
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo run --offline --quiet --manifest-path "$d/Cargo.toml" || exit 1
'''
DEMO_FE = DEMO_RT.replace('butte = { path = "$PWD/butte" }', 'butte-build = { path = "$PWD/butte-build" }\nproc-macro2 = "1"').replace(
    "the runtime crate", "the schema compiler")
# compiles schema.fbs with the tree's compiler, then main.rs together with the generated code
DEMO_GEN = '''#!/bin/bash
# Compiles schema*.fbs with the compiler of the tree it is started in, then builds
# main.rs with the generated code and runs it.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/gen/src" "$d/use/src" && cp "$here/main.rs" "$d/use/src/main.rs"
[ -e Cargo.lock ] && cp Cargo.lock "$d/gen/Cargo.lock" && cp Cargo.lock "$d/use/Cargo.lock"
cat > "$d/gen/Cargo.toml" <<END
[package]
name = "gen"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
butte-build = { path = "$PWD/butte-build" }
END
cat > "$d/gen/src/main.rs" <<'END'
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::File::open(&a[1]).unwrap();
    let out = std::fs::File::create(&a[2]).unwrap();
    butte_build::compile_fbs_generic(true, None, Box::new(text), Box::new(out)).unwrap();
}
END
cat > "$d/use/Cargo.toml" <<END
[package]
name = "use"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
butte = { path = "$PWD/butte" }
END
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
for f in "$here"/*.fbs; do
  cargo run --offline --quiet --manifest-path "$d/gen/Cargo.toml" -- "$f" "$d/use/src/$(basename "$f" .fbs).rs" || exit 1
done
cargo run --offline --quiet --manifest-path "$d/use/Cargo.toml" || exit 1
'''
# runs the command line tool itself
DEMO_CLI = '''#!/bin/bash
# Builds the command line tool of the tree it is started in and runs it on an output that is there already.
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
cargo build --offline --quiet -p butte-build --bins || exit 1
exe=$(find "$d/target/debug" -maxdepth 1 -type f -executable | head -1)
echo 'table First { a: int; b: string; c: [long]; }' > "$d/a.fbs"
echo 'table S {}' > "$d/b.fbs"
"$exe" --ugly "$d/a.fbs" "$d/out" || exit 1
"$exe" --ugly "$d/b.fbs" "$d/out" || exit 1
"$exe" --ugly "$d/b.fbs" "$d/new" || exit 1
cmp "$d/out" "$d/new" || exit 1
'''


def write(id, s):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = "/tmp/mkseed-tree"
    if not os.path.isdir(w):
        subprocess.check_call(["git", "clone", "-q", os.environ.get("SEED_REPO", "/repo"), w])
    subprocess.check_call(["git", "-C", w, "checkout", "-q", "--", "."])
    for path, old, new in s["edits"]:
        p = os.path.join(w, path)
        t = open(p).read()
        assert t.count(old) == 1, (id, path, old, t.count(old))
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    subprocess.check_call(["git", "-C", w, "checkout", "-q", "--", "."])
    open(os.path.join(d, "demo.sh"), "w").write({"rt": DEMO_RT, "fe": DEMO_FE, "gen": DEMO_GEN, "cli": DEMO_CLI}[s["kind"]])
    if s["kind"] != "cli":
        open(os.path.join(d, "main.rs"), "w").write(s["main"].lstrip("\n"))
    for n, t in s["files"].items():
        open(os.path.join(d, n), "w").write(t.lstrip("\n"))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


for f in sorted(os.listdir(os.path.join(V, "tools", "seeds"))):
    if f.endswith(".py"):
        exec(open(os.path.join(V, "tools", "seeds", f)).read())
ids = sys.argv[1:] or list(SEEDS)
for i in ids:
    write(i, SEEDS[i])
shutil.rmtree("/tmp/mkseed-tree", ignore_errors=True)

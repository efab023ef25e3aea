"""Writes /verif/seeded/<id>/ from the descriptions in tools/seeds.py: patch.diff (made by editing a scratch
copy of /repo's HEAD), demo.sh with what it needs beside it, and meta.json."""
import json, os, re, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS

PRELUDE = open(os.path.join(V, "tools", "demo_prelude.rs")).read()
SH = '''#!/bin/bash
# Builds a small program on /repo and runs it: it fails when the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp -r "$here/demo" "$t/demo"
mkdir "$t/data"
cd "$t/demo" || exit 2
unset RUSTFLAGS
export DEMO_DIR="$t/data"
CARGO_TARGET_DIR="$t/target" RUSTFLAGS=-Awarnings cargo run --offline --quiet %s
'''
TOML_FULL = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
carmen-core = { path = "/repo" }
serde_json = "1.0"
fixedbitset = "0.3"
rayon = "1.3"
[patch."https://github.com/apendleton/min-max-heap-rs.git"]
min-max-heap = { path = "shims/min-max-heap" }
[patch."https://github.com/apendleton/morton.git"]
morton = { path = "shims/morton" }
[patch."https://github.com/apendleton/rust-rocksdb.git"]
rocksdb = { path = "shims/rocksdb" }
[patch."https://github.com/apendleton/static-bushes.git"]
static-bushes = { path = "shims/static-bushes" }
[profile.dev]
opt-level = 1
debug = 0
incremental = false
'''
TOML_FMT = '''[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
integer-encoding = "1.0"
itertools = "0.8"
[profile.dev]
opt-level = 1
debug = 0
incremental = false
'''
FMT_HEAD = '''#[allow(dead_code, unused_imports)]
mod gridstore {
    #[path = "/repo/rust-src/src/gridstore/gridstore_format.rs"]
    pub mod gridstore_format;
}
use gridstore::gridstore_format::*;

'''
TOML_NATIVE = '''neon = { path = "bindings/neon" }
fuzzy-phrase = { path = "bindings/fuzzy-phrase" }
native = { path = "bindings/native" }
'''
PRELUDE_NATIVE = open(os.path.join(V, "tools", "demo_prelude_native.rs")).read()
only = set(sys.argv[1:])
for s in SEEDS:
    if only and s["id"] not in only:
        continue
    d = os.path.join(V, "seeded", s["id"])
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(os.path.join(d, "demo", "src"))
    w = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call(f"git -C /repo archive HEAD | tar -x -C {w}", shell=True)
        subprocess.check_call("git init -q . && git add -A && git -c user.name=a -c user.email=a commit -qm a", shell=True, cwd=w)
        for f, old, new in s["edits"]:
            p = os.path.join(w, f[1:] if f.startswith("/") else "rust-src/src/gridstore/" + f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "wb").write(subprocess.check_output(["git", "diff"], cwd=w))
    finally:
        shutil.rmtree(w)
    kind = s.get("kind", "full")
    demo = os.path.join(d, "demo")
    if kind == "node":
        # index.js by itself, over a stand-in for the compiled addon
        shutil.rmtree(demo)
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec node "$(dirname "$0")/demo.js"\n')
        open(os.path.join(d, "demo.js"), "w").write(s["demo"].lstrip("\n"))
    else:
        open(os.path.join(d, "demo.sh"), "w").write(SH % s.get("flags", ""))
        toml = {"full": TOML_FULL, "fmt": TOML_FMT, "native": TOML_FULL.replace("serde_json", TOML_NATIVE + "serde_json", 1),
                "disk": TOML_FULL.replace("serde_json", 'rocksdb = { path = "shims/rocksdb" }\nserde_json', 1)}[kind]
        open(os.path.join(demo, "Cargo.toml"), "w").write(toml)
        skip = shutil.ignore_patterns("target", "Cargo.lock")
        if kind != "fmt":
            shutil.copytree(os.path.join(V, "shims"), os.path.join(demo, "shims"), ignore=skip)
        if kind == "native":
            for c in ("neon", "neon-serde", "owning_ref", "fuzzy-phrase", "native"):
                shutil.copytree(os.path.join(V, "bindings", c), os.path.join(demo, "bindings", c), ignore=skip)
        head = {"full": PRELUDE, "disk": PRELUDE, "fmt": FMT_HEAD, "native": PRELUDE_NATIVE}[kind]
        open(os.path.join(demo, "src", "main.rs"), "w").write(head + s["demo"].lstrip("\n"))
        # a lock file with the versions of /repo's own
        lock = {"fmt": "/repo/Cargo.lock", "full": V + "/harness/Cargo.lock", "disk": V + "/harness/Cargo.lock", "native": V + "/bindings/check/Cargo.lock"}[kind]
        shutil.copy(lock, os.path.join(demo, "Cargo.lock"))
        subprocess.check_call(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=demo, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(s["id"], "written")

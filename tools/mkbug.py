"""mkbug.py SPEC.py: writes seeded/<id>/ from a spec (ID, PROP, NEEDS, WHAT, EDITS=[(file, old, new)], DEP, MAIN or DEMO)"""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("PLANT_COPY", "/tmp/pl")
DEPS = {
    "cb": 'compiler_builtins = { path = "REPO/compiler-builtins", default-features = false, features = ["unstable-public-internals", "arch"] }',
    "cbgen": 'compiler_builtins = { path = "REPO/compiler-builtins", default-features = false, features = ["unstable-public-internals"] }',
    "libm": 'libm = { path = "REPO/libm", default-features = false, features = ["unstable-public-internals", "unstable-float", "arch"] }',
    "libmgen": 'libm = { path = "REPO/libm", default-features = false, features = ["unstable-public-internals", "unstable-float"] }',
}
SH = '''#!/bin/bash
# builds a small program against the crate in the current directory's repository and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
%s
[workspace]
EOF
export RUSTUP_TOOLCHAIN=nightly-2026-08-21 CARGO_NET_OFFLINE=true
cargo build --offline -q --manifest-path "$d/Cargo.toml" --target-dir "$d/target" %s|| exit 3
"$d/target/%s/demo"
'''


def main(path):
    ns = {}
    exec(open(path).read(), ns)
    for sp in ns["SPECS"]:
        one(sp)


def one(sp):
    d = os.path.join(V, "seeded", sp["id"])
    os.makedirs(d, exist_ok=True)
    subprocess.run("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (S, S), shell=True, check=True)
    for f, old, new in sp["edits"]:
        p = os.path.join(S, f)
        s = open(p).read()
        n = s.count(old)
        k = sp.get("nth", None)
        if n != 1 and k is None:
            sys.exit("%s: %d matches in %s for %r" % (sp["id"], n, f, old))
        if k is None:
            s = s.replace(old, new)
        else:
            i = -1
            for _ in range(k + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
    df = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(df)
    subprocess.run(["git", "-C", S, "checkout", "-q", "--", "."])
    rel = sp.get("release", False)
    dep = "\n".join(DEPS[x] for x in sp["dep"].split()).replace("REPO", "$repo")
    open(os.path.join(d, "demo.sh"), "w").write(SH % (dep, "--release " if rel else "", "release" if rel else "debug"))
    open(os.path.join(d, "main.rs"), "w").write(sp["main"])
    json.dump({"property": sp["prop"], "needs": sp["needs"], "what_it_breaks": sp["what"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


main(sys.argv[1])

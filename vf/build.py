"""Builds the crates of /repo and hands out their LLVM IR and object code."""
import glob
import os
import re
import shutil
import subprocess
import sys

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
NIGHTLY = "nightly-2026-08-21"


class BuildError(Exception):
    pass


def toolchain_dir(name):
    r = subprocess.run(["rustc", "+" + name, "--print", "sysroot"], capture_output=True, text=True)
    return r.stdout.strip()


_tools = {}


def llvm_tool(name):
    if name not in _tools:
        c = glob.glob(toolchain_dir("stable") + "/lib/rustlib/*/bin/" + name)
        _tools[name] = c[0] if c else shutil.which(name)
    return _tools[name]


def base_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "CI", "VERIF_TIER"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    return e


def run(cmd, cwd=REPO, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or base_env(), capture_output=True, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stderr[-4000:]))
    return p


def newest(pattern):
    c = glob.glob(pattern, recursive=True)
    if not c:
        raise BuildError("no output matching " + pattern)
    return max(c, key=os.path.getmtime)


NOVEC = ["-C", "no-vectorize-loops", "-C", "no-vectorize-slp"]


def clear(d, crate):
    for f in glob.glob(d + "/**/%s*" % crate, recursive=True):
        if f.endswith((".ll", ".o", ".d")):
            os.unlink(f)


def _emit(key, args, env, crate, flags, cwd=REPO):
    """one cargo rustc run emitting IR and an object; always rebuilt from the working tree"""
    d = os.path.join(OUT, key)
    os.makedirs(d, exist_ok=True)
    ll, ob = os.path.join(d, crate + ".ll"), os.path.join(d, crate + ".o")
    td = os.path.join(d, "target")
    shutil.rmtree(td, ignore_errors=True)
    run(["cargo", "rustc", "--offline", "--locked"] + args + ["--target-dir", td, "--", "--emit=llvm-ir,obj",
                                                           "-C", "codegen-units=1"] + flags, cwd=cwd, env=env)
    shutil.copy(newest(td + "/**/%s-*.ll" % crate), ll)
    shutil.copy(newest(td + "/**/%s-*.o" % crate), ob)
    return ll, ob


def host(arch=True):
    """compiler_builtins for the host, release, with or without the arch feature"""
    feats = "unmangled-names,mem" + (",arch" if arch else "")
    return _emit("host" if arch else "hostgen",
                 ["-p", "compiler_builtins", "--no-default-features", "--features", feats, "--release"],
                 base_env(), "compiler_builtins", NOVEC + ["-Z", "merge-functions=disabled"])


def cross_sysroot(tgt):
    """metadata-only core for a target that has no installed standard library"""
    sr = os.path.join(OUT, "sysroot", tgt)
    lib = os.path.join(sr, "lib/rustlib", tgt, "lib")
    core = os.path.join(lib, "libcore-verif.rmeta")
    cb = os.path.join(lib, "libcompiler_builtins-verif.rmeta")
    if os.path.exists(core) and os.path.exists(cb):
        return sr
    os.makedirs(lib, exist_ok=True)
    e = base_env()
    e.update(RUSTUP_TOOLCHAIN="stable", RUSTC_BOOTSTRAP="1")
    src = toolchain_dir("stable") + "/lib/rustlib/src/rust/library/core/src/lib.rs"
    run(["rustc", "--edition=2024", "--crate-name", "core", "--crate-type", "rlib", "-Zalways-encode-mir",
         "--emit=metadata", "--target", tgt, "-C", "panic=abort", "-C", "opt-level=3", "-Cmetadata=verif",
         "-Zforce-unstable-if-unmarked", "--cap-lints", "allow", "--sysroot", sr, src, "-o", core + ".tmp"],
        cwd=OUT, env=e)
    os.rename(core + ".tmp", core)
    stub = os.path.join(sr, "cb.rs")
    with open(stub, "w") as f:
        f.write("#![feature(compiler_builtins)]\n#![compiler_builtins]\n#![no_std]\n")
    run(["rustc", "--edition=2024", "--crate-name", "compiler_builtins", "--crate-type", "rlib", "--emit=metadata",
         "--target", tgt, "-C", "panic=abort", "-Cmetadata=verif", "-Zforce-unstable-if-unmarked", "--cap-lints", "allow",
         "--sysroot", sr, stub, "-o", cb], cwd=OUT, env=e)
    return sr


PLAIN = ["-C", "opt-level=0", "-C", "no-prepopulate-passes", "-Z", "inline-mir=no"]


def cross(tgt, arch=True, public=True, plain=False):
    """IR of compiler_builtins for another target; plain: without any optimisation or inlining"""
    sr = cross_sysroot(tgt)
    d = os.path.join(OUT, ("xp-" if plain else "x-") + tgt)
    os.makedirs(d, exist_ok=True)
    td = os.path.join(d, "target")
    shutil.rmtree(td, ignore_errors=True)
    e = base_env()
    e.update(RUSTUP_TOOLCHAIN="stable", RUSTC_BOOTSTRAP="1", RUSTFLAGS="--sysroot " + sr)
    feats = "unmangled-names,mem" + (",arch" if arch else "") + (",unstable-public-internals" if public else "")
    run(["cargo", "rustc", "--offline", "--locked", "-p", "compiler_builtins", "--no-default-features", "--features",
         feats, "--release", "--target", tgt, "--target-dir", td, "--", "--emit=llvm-ir", "-C", "codegen-units=1"]
        + NOVEC + (PLAIN if plain else []) + ["-Zno-link", "-Zmerge-functions=disabled"], env=e)
    ll = os.path.join(d, "compiler_builtins.ll")
    shutil.copy(newest(td + "/%s/**/compiler_builtins-*.ll" % tgt), ll)
    return ll


def harness(name, feats=(), checked=False):
    """a harness crate under /verif/harness/<name> together with the crates it uses from /repo.

    Returns the list of IR files (harness first) and of object files."""
    key = "h-%s%s%s" % (name, "-" + "-".join(feats) if feats else "", "-chk" if checked else "")
    d = os.path.join(OUT, key)
    td = os.path.join(d, "target")
    shutil.rmtree(td, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    e = base_env()
    fl = ["--emit=llvm-ir,obj,link", "-Ccodegen-units=1", "-Cno-vectorize-loops", "-Cno-vectorize-slp",
          "-Zmerge-functions=disabled"]
    if checked:
        fl += ["-Cdebug-assertions=yes", "-Coverflow-checks=yes"]
    e["RUSTFLAGS"] = " ".join(fl)
    cmd = ["cargo", "build", "--offline", "--release", "--target-dir", td]
    if feats:
        cmd += ["--features", ",".join(feats)]
    run(cmd, cwd=os.path.join(VERIF, "harness", name), env=e)
    lls = glob.glob(td + "/**/*.ll", recursive=True)
    obs = glob.glob(td + "/**/*.o", recursive=True)
    keep = lambda fs: sorted([f for f in fs if "build_script" not in f and "build-script" not in f],
                             key=lambda f: (not os.path.basename(f).startswith(name), f))
    return keep(lls), keep(obs)

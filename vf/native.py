"""Runs functions of the real object code on concrete inputs.

A small driver is generated in LLVM IR with exactly the signature the compiled
function has, so the call goes through the same ABI lowering as in the crate."""
import os
import re
import subprocess
from . import build
from .llir import FBITS

MAIN = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
extern void vf_drv(void *in, void *out);
static unsigned char in[1 << 20] __attribute__((aligned(4096)));
static unsigned char out[256] __attribute__((aligned(64)));
int main(int argc, char **argv) {
    size_t n = (size_t)atol(argv[1]);
    while (fread(in, 1, n, stdin) == n) {
        memset(out, 0, sizeof out);
        vf_drv(in, out);
        fwrite(out, 1, sizeof out, stdout);
        fwrite(in, 1, n, stdout);
    }
    return 0;
}
'''


def tystr(ty):
    k = ty[0]
    if k == "i":
        return "i%d" % ty[1]
    if k == "f":
        return ty[1]
    if k == "ptr":
        return "ptr"
    if k == "void":
        return "void"
    if k == "vec":
        return "<%d x %s>" % (ty[1], tystr(ty[2]))
    if k == "struct":
        return ("<{ %s }>" if ty[2] else "{ %s }") % ", ".join(tystr(e) for e in ty[1])
    if k == "array":
        return "[%d x %s]" % (ty[1], tystr(ty[2]))
    raise ValueError(ty)


class Native:
    """one callable function; bufs gives the byte size of each pointer argument"""

    def __init__(self, code, func, bufs=None):
        self.func = func
        func.parse()
        self.bufs = bufs or {}
        self.code = code
        self.exe = None
        self.rty = ret_type(func)
        self.slots = []
        off = 0
        for nm, ty, at in func.params:
            if ty[0] == "ptr":
                n = self.bufs[nm]
            else:
                n = 16 if ty[0] != "vec" else 64
            n = (n + 63) // 64 * 64
            self.slots.append((off, n))
            off += n
        self.size = max(off, 64)

    def compile(self):
        from . import solve
        if self.exe:
            return
        d = os.path.join(solve.scratch_dir(), "nat_%d_%s" % (os.getpid(), abs(hash((self.func.name, id(self))))))
        os.makedirs(d, exist_ok=True)
        name = self.func.name
        m = self.func.module
        h = self.func.header
        cc = ""
        for c in ("fastcc", "coldcc"):
            if " %s " % c in h.split("@")[0]:
                cc = c + " "
        lines = ['target datalayout = "%s"' % HOST_LAYOUT, 'target triple = "%s"' % HOST_TRIPLE]
        ps = []
        body = []
        for i, ((nm, ty, at), (off, n)) in enumerate(zip(self.func.params, self.slots)):
            body.append("  %%p%d = getelementptr i8, ptr %%in, i64 %d" % (i, off))
            extra = ""
            if "sret" in at:
                toks = "".join(" " + x[1] for x in at["sret"])
                extra = " sret" + toks
            for k in ("zeroext", "signext", "inreg"):
                if at.get(k):
                    extra += " " + k
            own = self.argument(i, nm, ty, at, off)
            if own:
                body += own
                ps.append("%s%s %%a%d" % (tystr(ty), extra, i))
            elif ty[0] == "ptr":
                ps.append("ptr%s %%p%d" % (extra, i))
            else:
                body.append("  %%a%d = load %s, ptr %%p%d, align 16" % (i, tystr(ty), i))
                ps.append("%s%s %%a%d" % (tystr(ty), extra, i))
        sig = ", ".join("%s%s" % (tystr(ty), "") for _, ty, _ in self.func.params)
        sym = "@" + ('"vfx_%s"' % name[1:].strip('"'))
        lines.append("declare %s%s %s(%s)" % (cc, tystr(self.rty), sym, sig))
        lines.append("define void @vf_drv(ptr %in, ptr %out) {")
        lines += body
        if self.rty == ("void",):
            lines.append("  call %svoid %s(%s)" % (cc, sym, ", ".join(ps)))
        else:
            lines.append("  %%r = call %s%s %s(%s)" % (cc, tystr(self.rty), sym, ", ".join(ps)))
            if self.rty[0] == "struct":
                for i, e in enumerate(self.rty[1]):
                    lines.append("  %%e%d = extractvalue %s %%r, %d" % (i, tystr(self.rty), i))
                    lines.append("  %%q%d = getelementptr i8, ptr %%out, i64 %d" % (i, 64 * i))
                    lines.append("  store %s %%e%d, ptr %%q%d, align 1" % (tystr(e), i, i))
            else:
                lines.append("  store %s %%r, ptr %%out, align 1" % tystr(self.rty))
        lines += ["  ret void", "}"]
        with open(d + "/drv.ll", "w") as f:
            f.write("\n".join(lines) + "\n")
        with open(d + "/main.c", "w") as f:
            f.write(self.source())
        build.run([build.llvm_tool("llc"), "-filetype=obj", "-relocation-model=pic", "-O1", d + "/drv.ll", "-o",
                   d + "/drv.o"], cwd=d)
        objs = prefixed(self.code, self.func)
        build.run(["gcc", "-O1", d + "/main.c", d + "/drv.o"] + objs + [
            "-o", d + "/exe", "-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-Wl,--allow-multiple-definition"], cwd=d)
        self.exe = d + "/exe"

    def source(self):
        return MAIN

    def argument(self, i, nm, ty, at, off):
        return None

    def pack(self, args):
        buf = bytearray(self.size)
        for (nm, ty, at), (off, n), v in zip(self.func.params, self.slots, args):
            if isinstance(v, (bytes, bytearray)):
                buf[off:off + len(v)] = v
            else:
                buf[off:off + 16] = (v & ((1 << 128) - 1)).to_bytes(16, "little")
        return bytes(buf)

    def call_many(self, arglists, timeout=60):
        """list of (return value(s), buffers) per argument list; None for a record that crashed"""
        self.compile()
        data = b"".join(self.pack(a) for a in arglists)
        p = subprocess.run([self.exe, str(self.size)], input=data, capture_output=True, timeout=timeout)
        out = p.stdout
        rec = 256 + self.size
        res = []
        for i in range(len(arglists)):
            r = out[i * rec:(i + 1) * rec]
            if len(r) < rec:
                res.append(None)
                continue
            res.append((self.unpack(r[:256]), [r[256 + o:256 + o + n] for o, n in self.slots]))
        if p.returncode != 0 and len(arglists) == 1:
            return [None]
        return res

    def call(self, args, timeout=60):
        return self.call_many([args], timeout)[0]

    def unpack(self, b):
        def iv(ty, b):
            w = ty[1] if ty[0] == "i" else FBITS[ty[1]] if ty[0] == "f" else 64 if ty[0] == "ptr" else None
            if ty[0] == "vec":
                w = ty[1] * (ty[2][1] if ty[2][0] == "i" else FBITS[ty[2][1]])
            return int.from_bytes(b[:(w + 7) // 8], "little") & ((1 << w) - 1)
        if self.rty == ("void",):
            return None
        if self.rty[0] == "struct":
            return [iv(e, b[64 * i:]) for i, e in enumerate(self.rty[1])]
        return iv(self.rty, b)


def ret_type(func):
    if getattr(func, "rty", None) is not None:
        return func.rty
    for b in func.blocks.values():
        if b.term is not None and b.term.op == "ret":
            func.rty = b.term.ty
            return func.rty
    return ("void",)


def prefixed(code, func):
    """object files with every symbol renamed, so that they cannot clash with the C library.

    Code for another target is compiled from the same IR for the host."""
    from . import solve
    if not code.objs:
        # operations the host back end lowers to calls come from the host build
        from . import check
        return [retarget(code, func)] + prefixed(check.host(), func)
    if getattr(code, "pobjs", None) is None:
        objs = []
        for i, o in enumerate(code.objs):
            p = os.path.join(solve.scratch_dir(), "obj%d_%d_%d.o" % (os.getpid(), id(code), i))
            build.run(["objcopy", "--prefix-symbols=vfx_", o, p], cwd="/")
            objs.append(p)
        code.pobjs = objs
    return code.pobjs


HOST_LAYOUT = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-i128:128-f80:128-n8:16:32:64-S128"
HOST_TRIPLE = "x86_64-unknown-linux-gnu"
NAME = re.compile(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)')


def closure(code, name, types=True):
    """IR text of a function and everything it refers to, without target specific attributes"""
    out, seen, todo, decl = [], set(), [name], {}
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for m in code.mods:
            n2 = m.resolve(n)
            if n2 != n:
                seen.add(n)
                out.append("%s = alias i8, ptr %s" % (n, n2))
                todo.append(n2)
                break
            if n in m.funcs:
                f = m.funcs[n]
                h = re.sub(r"\b(arm_aapcscc|arm_aapcs_vfpcc|arm_apcscc|x86_stdcallcc|dso_local|hidden) ", "", f.header)
                h = re.sub(r" #\d+", "", h)
                lines = [re.sub(r"\b(arm_aapcscc|arm_aapcs_vfpcc|arm_apcscc) ", "", re.sub(r" #\d+", "", l)) for l in f.lines
                         if not l.strip().startswith("#dbg")]
                lines = [re.sub(r"(, ![a-zA-Z_.]+ ![0-9]+)+\s*$", "", l) for l in lines]
                h = re.sub(r"( ![a-zA-Z_.]+ ![0-9]+)+ \{", " {", h)
                txt = "\n".join([h] + lines + ["}"])
                out.append(txt)
                todo += NAME.findall(txt)
                break
            if n in m.globals:
                out.append("%s = %s" % (n, re.sub(r"(, ![a-zA-Z_.]+ ![0-9]+)+\s*$", "", m.globals[n])))
                todo += NAME.findall(m.globals[n])
                break
        else:
            for m in code.mods if types else ():
                for l in open(m.path):
                    if l.startswith("declare ") and n + "(" in l:
                        l = re.sub(r" #\d+", "", l.rstrip())
                        l = re.sub(r"\b(arm_aapcscc|arm_aapcs_vfpcc) ", "", l)
                        l = re.sub(r"( ![a-zA-Z_.]+ ![0-9]+)+\s*$", "", l)
                        decl[n] = l
    if not types:
        return "\n".join(out)
    tys = []
    for m in code.mods:
        for l in open(m.path):
            if l.startswith("%") and " = type " in l and l not in tys:
                tys.append(l)
    return ('target datalayout = "%s"\ntarget triple = "%s"\n' % (HOST_LAYOUT, HOST_TRIPLE) + "".join(tys)
            + "\n".join(list(decl.values()) + out) + "\n")


def retarget(code, func):
    from . import solve
    d = os.path.join(solve.scratch_dir(), "rt_%d_%s" % (os.getpid(), abs(hash((func.name, id(code))))))
    os.makedirs(d, exist_ok=True)
    with open(d + "/a.ll", "w") as f:
        f.write(closure(code, func.name))
    build.run([build.llvm_tool("llc"), "-filetype=obj", "-relocation-model=pic", "-O1", d + "/a.ll", "-o", d + "/a.o"],
              cwd=d)
    build.run(["objcopy", "--prefix-symbols=vfx_", d + "/a.o", d + "/b.o"], cwd=d)
    return d + "/b.o"

"""P26: the x86 multiply-add dispatcher runs only supported instructions and settles on one choice"""
import os
import re
import subprocess
from vf import build, check, native, solve, symex, terms as t
from vf.symex import SymexError

FNS = ["h_fma", "h_fmaf"]
REGS = ("eax", "ebx", "ecx", "edx")


def cpuid(leaf, sub, reg):
    if leaf != 7:
        sub = 0
    return t.var("cpuid_%x_%x_%s" % (leaf, sub, reg), 32)


XCR0 = t.var("xcr0", 64)


def bit(x, i):
    return t.extract(x, i, i)


def supported():
    """what processor and operating system report, from the processor manuals"""
    c1 = cpuid(1, 0, "ecx")
    named = lambda s: t.ands([t.eq(cpuid(0, 0, r), t.const(int.from_bytes(s[4 * i:4 * i + 4], "little"), 32))
                              for i, r in enumerate(("ebx", "edx", "ecx"))])
    basic = t.ne(cpuid(0, 0, "eax"), t.const(0, 32))
    avx = t.ands([basic, bit(c1, 26), bit(c1, 27), t.eq(t.extract(XCR0, 2, 1), t.const(3, 2))])
    return {"xgetbv": t.and_(basic, bit(c1, 27)),
            "fma": t.and_(avx, bit(c1, 12)),
            "fma4": t.ands([avx, t.or_(named(b"AuthenticAMD"), named(b"HygonGenuine")), bit(cpuid(0x80000001, 0, "ecx"), 16)])}


class Run:
    """one execution of a call; shared statics may hold the initial value or what another thread stored"""

    def __init__(self, code, fn, others):
        self.others, self.n = others, 0
        self.used, self.stores, self.races = [], [], []
        ex = self.ex = symex.Exec(code.mods, fpsem=symex.UninterpFP(), asm=self.asm)
        ex.hooks.update(intrinsic=self.intrinsic, atomic_store=self.store)
        ex.atomic_load_hook = self.load
        ex.pre_access_hook = self.plain
        f = ex.find_func("@" + fn)
        f.parse()
        args = [t.var("a%d" % i, check.argw(ty)) for i, (_, ty, _) in enumerate(f.params)]
        _, _, self.pc = ex.run(fn, args)

    def shared(self, p):
        return [o for g, o, off in p.cases if o is not None and o.kind == "global" and not o.const]

    def load(self, ex, st, ty, p):
        if not self.shared(p):
            return None
        (g, o, off), = p.cases
        init = ex.load(State0(st.pc, ex), ty, p, ex.modules[0])
        r = init
        for name, g1, v in self.others:
            if name != o.name:
                continue
            self.n += 1
            c = t.and_(t.var("seen%d" % self.n, 1), g1)
            r = ex.merge_val(c, remake(ex, v), r)
        return r

    def store(self, ex, st, ty, v, p):
        sh = self.shared(p)
        if not sh:
            return False
        (g, o, off), = p.cases
        self.stores.append((o.name, t.ands(st.pc), v))
        return True

    def plain(self, ex, st, what, o, off, n, g):
        if o.kind == "global" and not o.const and not isinstance(st, State0):
            self.races.append((t.and_(t.ands(st.pc), g), "%s of %s without atomics" % (what, o.name)))

    def intrinsic(self, ex, st, nm, tys, vals, ins):
        if nm == "llvm.x86.xgetbv":
            self.used.append(("xgetbv", t.ands(st.pc)))
            return XCR0
        raise SymexError("intrinsic " + nm)

    def asm(self, ex, st, ins, tys, vals):
        tm, cons = ins.a[0][1], ins.a[0][2]
        if re.search(r"\bcpuid\b", tm):
            cs = [c for c in cons.split(",") if not c.startswith("~")]
            outs = [c for c in cs if c.startswith("=")]
            name = lambda c: "e" + re.search(r"\{(\w+)\}", c).group(1)[-2:] if "{" in c else "ebx"
            regs = {}
            for c, v in zip(cs[len(outs):], vals):
                regs[name(outs[int(c)] if c.isdigit() else c)] = v
            a, s = regs["eax"], regs.get("ecx", t.const(0, 32))
            if not a.is_const or not s.is_const:
                raise SymexError("cpuid with a computed leaf")
            return [cpuid(a.val, s.val, name(c)) for c in outs]
        m = re.search(r"\b(vfn?m(?:add|sub)\w+)", tm)
        if m:
            kind = "fma" if re.search(r"\d", m.group(1)) else "fma4"
            self.used.append((kind, t.ands(st.pc)))
            return t.uf("run_" + m.group(1), vals, check.argw(ins.ty))
        if re.search(r"\bxgetbv\b", tm):
            self.used.append(("xgetbv", t.ands(st.pc)))
            return [t.trunc(XCR0, 32), t.extract(XCR0, 63, 32)]
        return NotImplemented


class State0(symex.State):
    """a view of memory as it was before any call"""

    def __init__(self, pc, ex):
        super().__init__(pc, {}, {})


def remake(ex, v):
    """a pointer from an earlier execution in terms of this one's objects"""
    if not isinstance(v, symex.Ptr):
        return v
    cs = []
    for g, o, off in v.cases:
        if o is not None:
            o = ex.global_ptr(o.name).cases[0][1]
        cs.append((g, o, off))
    return symex.Ptr(cs)


def same(a, b):
    """equality of two stored values"""
    if isinstance(a, symex.Ptr) and isinstance(b, symex.Ptr):
        return t.ors([t.ands([g, h, t.eq(x, y)]) for g, o, x in a.cases for h, q, y in b.cases
                      if (o.name if o else None) == (q.name if q else None)])
    return t.eq(a, b)


class Dispatch:
    nat, timeout, bounds, cases, reduced = False, 60, None, None, False

    def __init__(self, code, fn):
        self.code, self.fn = code, fn
        self.name = "%s [%s]" % (fn, code.key)
        self._prep = None

    def ncases(self):
        return 1

    def decide(self, ci, timeout):
        first = Run(self.code, self.fn, [])
        if not first.used:
            return {"status": "unknown", "why": "no run-time selection found"}
        stored = {}
        for n, g, v in first.stores:
            stored.setdefault(n, []).append((g, v))
        later = Run(self.code, self.fn, first.stores)
        sup = supported()
        qs = []
        for r in (first, later):
            for kind, g in r.used:
                qs.append((t.and_(g, t.not_(sup[kind])), "executes %s although it is not reported as supported" % kind))
            for g, w in r.races:
                qs.append((g, w))
            for o in r.ex.obl:
                qs.append((o.cond, "%s: %s" % (o.kind, o.text)))
            # every store repeats what the first caller chose: by induction no other value is ever seen
            for n, g, v in r.stores:
                ok = t.ors([t.and_(h, same(v, w)) for h, w in stored.get(n, [])])
                qs.append((t.and_(g, t.not_(ok)), "stores another choice in %s than the first caller" % n))
            if r.pc is None:
                return {"status": "unknown", "why": "does not return"}
        # long mode implies the first extended leaf
        pre = t.not_(t.ult(cpuid(0x80000000, 0, "eax"), t.const(0x80000001, 32)))
        st, env = solve.check(t.and_(pre, t.ors([q for q, _ in qs])), timeout)
        if st == "unsat":
            return {"status": "unsat", "funcs": list(later.ex.funcs_run)}
        if st != "sat":
            return {"status": "unknown", "why": "solver time-out"}
        ev = lambda x: t.evaluate([x], {v.val: env.get(v.val, 0) for v in t.variables([x])}, ufs=lambda *a: 0)[0]
        what = [w for q, w in qs if ev(q)]
        cpu = {v.val: env.get(v.val, 0) for v in t.variables([q for q, _ in qs] + [pre, XCR0]) if re.match("cpuid|xcr0", v.val)}
        inputs = ["%s=0x%x" % kv for kv in sorted(cpu.items()) if kv[1]]
        text = "%s %s" % (self.fn, what[0])
        seen = any(v for k, v in env.items() if k.startswith("seen"))
        ran = None
        if not seen:
            ran = self.replay(cpu)
        if ran:
            text += "; the compiled code " + ran
        ok = bool(what) and (ran is not None or "executes" not in what[0] or seen)
        return {"status": "violation" if ok else "unknown", "why": text + " (not reproduced)",
                "replay": {"confirmed": ok, "text": text + " with " + ", ".join(inputs), "inputs": inputs}}

    def replay(self, cpu):
        """runs the object code with the processor's answers replaced; the instruction it then reaches"""
        n = Patched(self.code, self.code.func(self.fn))
        return n.attempt(cpu)


class Patched(native.Native):
    def source(self):
        return r'''
#define _GNU_SOURCE
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
extern void vf_drv(void *in, void *out);
static unsigned char in[4096] __attribute__((aligned(64))), out[256] __attribute__((aligned(64)));
static struct { unsigned long at; int kind; } sites[256];
static int nsites;
static struct { unsigned leaf, sub, r[4]; } cpu[64];
static int ncpu;
static unsigned long long xcr0;
static void ill(int s, siginfo_t *i, void *c) {
    greg_t *g = ((ucontext_t *)c)->uc_mcontext.gregs;
    for (int k = 0; k < nsites; k++) if (sites[k].at == (unsigned long)g[REG_RIP]) {
        if (sites[k].kind == 0) {
            unsigned l = g[REG_RAX], b = l == 7 ? g[REG_RCX] : 0, r[4] = {0};
            for (int j = 0; j < ncpu; j++) if (cpu[j].leaf == l && cpu[j].sub == b) memcpy(r, cpu[j].r, 16);
            g[REG_RAX] = r[0]; g[REG_RBX] = r[1]; g[REG_RCX] = r[2]; g[REG_RDX] = r[3];
            g[REG_RIP] += 2;
        } else if (sites[k].kind == 1) {
            unsigned l = 1, ok = 0;
            for (int j = 0; j < ncpu; j++) if (cpu[j].leaf == 1) ok = cpu[j].r[2] >> 27 & 1;
            if (!ok) { printf("xgetbv\n"); fflush(stdout); _exit(0); }
            g[REG_RAX] = (unsigned)xcr0; g[REG_RDX] = xcr0 >> 32;
            g[REG_RIP] += 3;
        } else { printf("site %d\n", k); fflush(stdout); _exit(0); }
        return;
    }
    printf("illegal instruction\n"); fflush(stdout); _exit(0);
}
int main(int argc, char **argv) {
    for (int i = 1; i < argc; i++) {
        unsigned long a; int k; unsigned l, s, r[4];
        if (sscanf(argv[i], "s%lx,%d", &a, &k) == 2) { sites[nsites].at = a; sites[nsites++].kind = k; }
        else if (sscanf(argv[i], "c%x,%x,%x,%x,%x,%x", &l, &s, r, r + 1, r + 2, r + 3) == 6) {
            cpu[ncpu].leaf = l; cpu[ncpu].sub = s; memcpy(cpu[ncpu++].r, r, 16);
        } else sscanf(argv[i], "x%llx", &xcr0);
    }
    for (int k = 0; k < nsites; k++) {
        unsigned char *p = (unsigned char *)sites[k].at;
        mprotect((void *)((unsigned long)p & -4096ul), 8192, PROT_READ | PROT_WRITE | PROT_EXEC);
        p[0] = 0x0f; p[1] = 0x0b;
    }
    struct sigaction sa = {0};
    sa.sa_sigaction = ill; sa.sa_flags = SA_SIGINFO;
    sigaction(SIGILL, &sa, 0);
    vf_drv(in, out);
    printf("returned\n");
    return 0;
}
'''

    def attempt(self, cpu):
        self.compile()
        p = build.run([build.llvm_tool("llvm-objdump"), "-d", "--no-show-raw-insn", self.exe], cwd="/")
        text = p if isinstance(p, str) else p.stdout
        args, names, n = [], {}, 0
        fn = ""
        for l in text.split("\n"):
            m = re.match(r"^[0-9a-f]+ <(.*)>:", l)
            if m:
                fn = m.group(1)
            m = re.match(r"\s*([0-9a-f]+):\s+(\w+)", l)
            if not m or not fn.startswith("vfx_"):
                continue
            mn = m.group(2)
            k = 0 if mn == "cpuid" else 1 if mn == "xgetbv" else 2 if re.match(r"vfn?m(add|sub)", mn) else None
            if k is not None:
                args.append("s%s,%d" % (m.group(1), k))
                names[n] = mn
                n += 1
        leaves = {}
        for k, v in cpu.items():
            m = re.match(r"cpuid_(\w+)_(\w+)_(\w+)", k)
            if m:
                leaves.setdefault((m.group(1), m.group(2)), {})[m.group(3)] = v
        args += ["c%s,%s,%s" % (l, s, ",".join("%x" % r.get(x, 0) for x in REGS)) for (l, s), r in leaves.items()]
        args.append("x%x" % cpu.get("xcr0", 0))
        out = subprocess.run([self.exe] + args, capture_output=True, text=True, timeout=60).stdout.strip()
        m = re.match(r"site (\d+)", out)
        if m:
            return "reaches " + names[int(m.group(1))]
        return "executes " + out if out and out != "returned" else None


def goals(ck):
    ck.bounds += ["every answer of cpuid and xgetbv; any number of threads, by induction over calls"]
    ck.outside += ["the values the selected implementations compute (P20)", "32-bit x86"]
    ck.assumptions += ["cpuid and xgetbv give the same answers on every processor the threads run on",
                       "a 64-bit processor implements extended leaf 0x80000001"]
    c = check.harness("libmh", ("arch",))
    for fn in FNS:
        if c.func(fn):
            ck.add(Dispatch(c, fn))
        else:
            ck.note_error(fn + " is not defined")

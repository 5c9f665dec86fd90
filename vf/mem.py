"""Goals about functions working on buffers: contents, length and fill value symbolic, one case per alignment"""
import subprocess
from . import cms, native, solve, symex, x86
from . import terms as t
from .check import Goal, Prep, argw

G = 16                        # bytes watched on either side of a buffer

MAIN = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
extern void vf_drv(void *in, void *out);
static unsigned char in[1 << 16] __attribute__((aligned(4096)));
static unsigned char out[256] __attribute__((aligned(64)));
int main(int argc, char **argv) {
    size_t n = (size_t)atol(argv[1]);
    while (fread(in, 1, n, stdin) == n) {
        memset(out, 0, sizeof out);
        vf_drv(in, out);
        unsigned long a = (unsigned long)in;
        memcpy(out + 128, &a, 8);
        fwrite(out, 1, sizeof out, stdout);
        fwrite(in, 1, n, stdout);
    }
    return 0;
}
'''


class Placed(native.Native):
    """a native function whose pointer arguments are given as offsets into the record"""

    def __init__(self, code, func):
        native.Native.__init__(self, code, func, {p[0]: 16 for p in func.params if p[1][0] == "ptr"})
        self.data = (self.size + 4095) // 4096 * 4096
        self.size = self.data + 4 * 1024

    def source(self):
        return MAIN

    def argument(self, i, nm, ty, at, off):
        if ty[0] != "ptr":
            return None
        return ["  %%o%d = load i64, ptr %%p%d, align 8" % (i, i), "  %%a%d = getelementptr i8, ptr %%in, i64 %%o%d" % (i, i)]

    def base(self, rec):
        return int.from_bytes(rec[128:136], "little")


class Buf:
    """one object: its alignment, size and the offsets of the arguments pointing into it"""

    def __init__(self, name, align, size):
        self.name, self.align, self.size = name, align, size


class Layout:
    """placement of buffers: bufs, and for every pointer parameter (buffer index, offset); a negative offset -e means
    that the pointed-to range, of the length given by the goal, ends at e"""

    def __init__(self, bufs, ptrs, pre=None):
        self.bufs, self.ptrs = bufs, ptrs
        self.over = {}
        self.pre = pre

    def start(self, i, n, w):
        """offset of pointer i as a term of width w"""
        off = self.ptrs[i][1]
        return t.const(off, w) if off >= 0 else t.sub(t.const(-off, w), resize(n, w))


def resize(x, w):
    return x if x.w == w else t.zext(x, w) if x.w < w else t.extract(x, w - 1, 0)


class MemGoal(Goal):
    """free variables: the integer arguments, then the contents of each buffer.

    rets: the return value (pointers relative to the first pointer argument), then the final contents of each buffer.
    access(layout, vals) -> function (kind, buffer index, off, n) -> 1-bit term, whether such an access is allowed."""

    def __init__(self, code, fn, layouts, ok, limit, access=None, length=None, **kw):
        kw.setdefault("max_iter", 80)
        Goal.__init__(self, code, fn, ok, **kw)
        self.shapes = layouts
        self.access = access
        self.samples = self.samples or self.draw_input
        self.limit = limit
        self.length = length        # index of the length argument
        self.asm = x86.handler(limit)

    def ncases(self):
        return len(self.shapes)

    def encode(self, lay=None):
        lay = lay or self.shapes[0]
        self.lay = lay
        f = self.code.func(self.fn)
        if f is None:
            raise symex.SymexError("no function %s" % self.fn)
        ex = symex.Exec(self.code.mods, max_iter=self.max_iter, asm=self.asm, feasible=self.feas)
        ex.check_align = True
        if cms.lib():
            vs = cms.Values()
            ex.offsets = lambda st, g, off: vs(t.and_(st.pct(), g), off)
            ex.feasible = vs.possible
        P = ex.ptrw
        free = [t.var("a%d" % i, w) for i, w in enumerate(argw(ty) for nm, ty, at in f.params if argw(ty) is not None)]
        nint = len(free)
        objs = []
        mem = {}
        for i, b in enumerate(lay.bufs):
            o = ex.new_obj(b.name, b.size, "global", base=t.const(0x100000 * (i + 1) + b.align, P))
            v = t.var("m%d" % i, 8 * b.size)
            free.append(v)
            ex.gobj["vf:" + b.name] = o
            mem[o.id] = {j: (1, t.extract(v, 8 * j + 7, 8 * j)) for j in range(b.size)}
            objs.append(o)
        vals = list(free)
        n = free[self.length] if self.length is not None else None
        it, pi, args = iter(free), iter(range(len(lay.ptrs))), []
        for nm, ty, at in f.params:
            if ty[0] == "ptr":
                k = next(pi)
                args.append(symex.Ptr([(t.TRUE, objs[lay.ptrs[k][0]], lay.start(k, n, P))]))
            else:
                args.append(next(it))
        pc = symex.conj_add((), self.pre(vals, lay)) if self.pre else ()
        if lay.pre:
            pc = symex.conj_add(pc, lay.pre(vals))
        if self.access:
            allowed = self.access(lay, vals)

            def hook(ex, st, kind, o, off, n, g):
                if o in objs:
                    bad = t.and_(g, t.not_(allowed(kind, objs.index(o), off, n)))
                    if bad is not t.FALSE:
                        ex.oblige("oob", st, bad, "%s outside the ranges given" % kind)
            ex.pre_access_hook = hook
        r, mem2, pc2 = ex.run(self.fn, args, pc=pc, mem=mem)
        if isinstance(r, symex.Ptr):
            r = t.sub(ex.ptr_int(r), t.add(objs[lay.ptrs[0][0]].base, lay.start(0, n, P)))
        rets = [] if r is None else [r]
        self.nret = len(rets)
        for o in objs:
            cells = dict(ex.cells_of(mem2, o)) if mem2 else {}
            rets.append(t.concat(*[ex.get_cell(cells, j, 1, o) for j in reversed(range(o.size))]))
        return Prep(self, ex, vals, rets, pc, pc2, free, lay)

    def draw_input(self, rnd, ws):
        nb = len(self.shapes[0].bufs)
        out = [rnd.randint(0, self.limit) if i == self.length else rnd.getrandbits(w) for i, w in enumerate(ws[:len(ws) - nb])]
        x = rnd.getrandbits(max(ws[len(ws) - nb:]))
        for w in ws[len(ws) - nb:]:
            # buffers sharing most of their contents, with a few zero bytes
            y = x & t.mask(w)
            for _ in range(rnd.randrange(4)):
                k = 8 * rnd.randrange(w // 8)
                y = y & ~(255 << k) | rnd.choice([0, rnd.getrandbits(8)]) << k
            out.append(y)
        return out

    def good(self, p):
        return self.ok(p.vals, p.rets, p.shape)

    def feas(self, c):
        r, _ = solve.check(c, 5)
        return r != "unsat"

    def run_native_many(self, lst):
        f = self.code.func(self.fn)
        key = (self.fn, "placed")
        if key not in self.code.exe:
            self.code.exe[key] = Placed(self.code, f)
        nat = self.code.exe[key]
        lay = self.lay
        nat.compile()
        out = []
        recs = []
        offs = [nat.data + 1024 * i + b.align for i, b in enumerate(lay.bufs)]
        for vals in lst:
            rec = bytearray(nat.size)
            nint = len(vals) - len(lay.bufs)
            it, pi = iter(vals[:nint]), iter(lay.ptrs)
            for (nm, ty, at), (so, n) in zip(f.params, nat.slots):
                if ty[0] == "ptr":
                    bi, off = next(pi)
                    off = off if off >= 0 else -off - vals[self.length]
                    rec[so:so + 8] = (offs[bi] + off).to_bytes(8, "little")
                else:
                    rec[so:so + 16] = (next(it) & t.mask(128)).to_bytes(16, "little")
            for o, b, v in zip(offs, lay.bufs, vals[nint:]):
                rec[o:o + b.size] = v.to_bytes(b.size, "little")
            recs.append(bytes(rec))
        p = subprocess.run([nat.exe, str(nat.size)], input=b"".join(recs), capture_output=True, timeout=60)
        step = 256 + nat.size
        for i in range(len(lst)):
            r = p.stdout[i * step:(i + 1) * step]
            if len(r) < step:
                out.append(None)
                continue
            res = []
            if nat.rty != ("void",):
                v = nat.unpack(r[:128])
                if nat.rty[0] == "ptr":
                    bi, off = lay.ptrs[0]
                    off = off if off >= 0 else -off - lst[i][self.length]
                    v = v - nat.base(r) - offs[bi] - off & t.mask(self.code.mods[0].ptrw)
                res.append(v)
            for o, b in zip(offs, lay.bufs):
                res.append(int.from_bytes(r[256 + o:256 + o + b.size], "little"))
            out.append(res)
        return out

    def replay(self, p, env):
        self.lay = p.shape
        vals = t.evaluate(p.vals, {v.val: env.get(v.val, 0) for v in p.free})
        got = self.run_native(vals)
        lay = p.shape
        nint = len(vals) - len(lay.bufs)
        text = "%s(%s)" % (self.fn, ", ".join("0x%x" % v for v in vals[:nint]))
        at = [(lay.bufs[bi], off if off >= 0 else -off - vals[self.length]) for bi, off in lay.ptrs]
        text += " with pointers " + ", ".join("%s+%d" % (b.name, b.align + o) for b, o in at)
        inp = ["0x%x" % v for v in vals[:nint]] + ["%s+%d" % (b.name, b.align + o) for b, o in at]
        if got is None:
            return {"confirmed": True, "text": text + " crashes", "inputs": inp}
        cargs = [t.const(v, x.w) for v, x in zip(vals, p.vals)]
        good = bool(t.evaluate([self.ok(cargs, [t.const(g, x.w) for g, x in zip(got, p.rets)], lay)], {})[0])
        if good:
            # an access outside the ranges: visible in the execution of the IR, not in the result
            bad = [o for o in p.ex.obl if t.evaluate([o.cond], env, default=0)[0]]
            if bad:
                return {"confirmed": True, "text": text + ": " + bad[0].text, "inputs": inp}
        return {"confirmed": not good, "text": text + " gives a wrong result", "inputs": inp}

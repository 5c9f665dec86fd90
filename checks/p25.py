"""P25: odd and even functions"""
import random
import time

from vf import solve, symex, fp, terms as t
from vf.check import Shape
from vf.absfp import AbsFP
from checks import libm

ODD = "asin asinh atan atanh cbrt erf j1 sin sinh tan tanh".split()
EVEN = "cos cosh j0 fabs".split()


TRIG = "sin cos tan sincos".split()
OUT = ["h_cbrt", "h_hypot"]
LOW, HIGH = 8, 6


def is0(f, x):
    return t.eq(fp.mag(f, x), t.const(0, f.w - 1))


def flipped(c, n, f, signs, outs, ov, zero=False):
    """ok: the result with the argument signs of `signs` flipped relates to the given one as `outs` (1: negated)"""
    def ok(a, r):
        ex = symex.Exec(c.mods, fpsem=AbsFP(), overrides=ov)
        fn = c.func(n)
        b = iter([fp.fneg(f, x) if s else x for x, s in zip(a, signs)])
        args, bufs = [], []
        for nm, ty, at in fn.params:
            if ty[0] == "ptr":
                o = ex.new_obj("out", 16, "global", align=16)
                bufs.append(o)
                args.append(symex.Ptr([(t.TRUE, o, t.const(0, ex.ptrw))]))
            else:
                args.append(next(b))
        q, mem, pc = ex.run(n, args)
        got = [q] + [ex.get_cell(dict(ex.cells_of(mem, o)), 0, f.w // 8, o) for o in bufs]
        same = []
        for x, y, neg in zip(r, got, outs):
            y = fp.fneg(f, y) if neg else y
            e = t.or_(t.eq(x, y), t.and_(fp.is_nan(f, x), fp.is_nan(f, y)))
            if zero:        # x < 0: no result is zero, which the bounds do not show
                e = t.or_(e, t.ands([fp.sign(f, a[1]), is0(f, x), is0(f, y)]))
            same.append(e)
        done = t.FALSE if pc is None else t.ands(pc)
        return t.ands(same + [done])
    return ok


class Symmetric(libm.FGoal):
    """decides the relation on the numbers whose pattern starts with given bits, splitting further where the bounds on
    intermediate results are too wide. The flipped argument is taken with a clear sign: the relation for a set sign is
    the same one."""
    deepest = 8

    def setup(self, f, signs, top):
        self.f, self.signs = f, signs
        e = [f.bias + i for i in range(-LOW, HIGH if top is None else top)]
        self.heads = [(x, f.eb) for x in e] + cover(0, e[0], f.eb)
        self.heads += cover(e[-1] + 1, 1 << f.eb, f.eb) if top is None else [((1 << f.eb) - 1, f.eb)]
        return self

    def ncases(self):
        return len(self.heads)

    def shape(self, head, n):
        f, m = self.f, self.f.w - 1 - n

        def build(v):
            return [t.concat(t.const(head, n + 1), x) if s else x for x, s in zip(v, self.signs)]
        return Shape([m if s else f.w for s in self.signs], build, None)

    def decide(self, ci, timeout):
        todo, done = [self.heads[ci] + (0,)], 0
        end = time.time() + timeout
        while todo:
            head, n, d = todo.pop()
            sh = self.shape(head, n)
            self._prep = None
            p = self.prep(sh)
            unw = t.ors([o.cond for o in p.ex.obl if o.kind == "unwind"])
            q = t.ands([t.ands(p.pc), t.or_(unw, t.and_(p.done(), t.not_(self.good(p))))])
            last = d >= self.deepest or n >= self.f.w - 8
            r, env = solve.check(q, 10 if last else 2)
            if r == "unsat":
                done += 1
                continue
            if r == "sat":
                # the model fixes results the real operations need not give: also tried with other low bits
                rnd = random.Random(head)
                for i in range(1 if not last else 40):
                    rep = self.replay(p, env)
                    if rep["confirmed"]:
                        return {"status": "violation", "replay": rep}
                    env = {v.val: rnd.getrandbits(v.w) for v in p.free}
            if last or time.time() > end:
                why = "bounds too wide" if r == "sat" else "solver time-out"
                return {"status": "unknown", "why": "%s for arguments starting 0x%x (%d bits)" % (why, head << (self.f.w - 1 - n), n + 1)}
            todo += [(2 * head + 1, n + 1, d + 1), (2 * head, n + 1, d + 1)]
        return {"status": "unsat", "parts": done}


def cover(lo, hi, n):
    """aligned blocks covering the n-bit numbers lo .. hi - 1, as (leading bits, their number)"""
    out = []
    while lo < hi:
        k = 0
        while lo % (2 << k) == 0 and lo + (2 << k) <= hi:
            k += 1
        out.append((lo >> k, n - k))
        lo += 1 << k
    return out


def goals(ck):
    ck.bounds += ["every bit pattern of the flipped argument (Bessel functions: every finite one) and of the other argument; sin, cos, tan, sincos: |x| < 1 (f32) or 1/2 (f64), infinities and NaNs. Outside: larger arguments of those four (exact cancellation in the argument reduction cannot be ruled out by intervals), f64 cbrt and hypot, the configuration with architecture-specific square root and fused multiply-add (whose results are the same by P19 and P20)"]
    ck.assumptions += ["additions, multiplications, divisions and square roots of non-special operands are arbitrary functions of the operands' magnitudes and relative sign, within the interval that follows from those of the operands (IEEE arithmetic in round to nearest is one of them)",
                       "square root and fused multiply-add follow their specification (P19, P20)",
                       "the multi-word argument reduction (rem_pio2_large) is a function of the words it is given"]
    for c in libm.codes(ck)[:1]:
        ov = libm.primitives(c)
        todo = [(b, (1,), (1,)) for b in ODD] + [(b, (1,), (0,)) for b in EVEN]
        todo += [("sincos", (1,), (1, 0)), ("hypot", (1, 0), (0,)), ("hypot", (0, 1), (0,)), ("atan2", (1, 0), (1,))]
        for b, s, o in todo:
            for n, f in libm.each(c, b):
                if n in OUT:
                    continue
                fin = (lambda a, f=f: fp.is_finite(f, a[0])) if b in ("j0", "j1") else None
                g = Symmetric(c, n, flipped(c, n, f, s, o, ov, b == "atan2"), pre=fin, fpsem=AbsFP(), overrides=ov, timeout=100, obls=False,
                              name="%s%s [%s]" % (n, "" if len(s) == 1 else " argument %d" % s.index(1), c.key),
                              outw=(f.w,) if len(o) > 1 else ())
                ck.add(g.setup(f, s, (0 if f.w == 32 else -1) if b in TRIG else None))

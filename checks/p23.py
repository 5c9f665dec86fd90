"""P23: special values and domain limits of the elementary functions"""
import functools
import random
import struct
import time

from vf import fp, solve, terms as t
from vf.absfp import AbsFP
from vf.check import Shape
from checks import libm

PI = 3.141592653589793


def pat(f, v):
    """bit pattern of the format's number nearest v"""
    if f.w == 64:
        return struct.unpack("<Q", struct.pack("<d", v))[0]
    return struct.unpack("<I", struct.pack("<f", v))[0]


class Cls:
    """patterns lo .. hi of each argument, an extra condition on the arguments, how many low bits of the first one are
    zero, and what the result has to be"""

    def __init__(self, text, ranges, want, extra=None, low=0):
        self.text, self.ranges, self.want, self.extra, self.low = text, ranges, want, extra, low


def common(lo, hi, w):
    """longest common leading bits of lo .. hi"""
    n = w - (lo ^ hi).bit_length()
    return (lo >> (w - n), n)


class Special(libm.FGoal):
    """one case per class of arguments; a class is split by leading bits where the bounds are too wide"""
    deepest = 60

    def setup(self, f, classes, ws):
        self.f, self.classes, self.ws = f, classes, ws
        return self

    def ncases(self):
        return len(self.classes)

    def shape(self, c, node):
        low = [c.low] + [0] * len(node)
        ws = [w - n - l for w, (h, n), l in zip(self.ws, node, low)]

        def build(v):
            v = iter(v)
            out = []
            for (h, n), w, l in zip(node, self.ws, low):
                x = [t.const(h, n)] if n else []
                x += [next(v)] if w > n + l else []
                x += [t.const(0, l)] if l else []
                out.append(functools.reduce(t.concat, x))
            return out

        def pre(v):
            a = build(v)
            c1 = [c.extra(a)] if c.extra else []
            for (h, n), w, (lo, hi), x in zip(node, self.ws, c.ranges, a):
                if h << (w - n) < lo:
                    c1.append(t.ule(t.const(lo, w), x))
                if ((h + 1) << (w - n)) - 1 > hi:
                    c1.append(t.ule(x, t.const(hi, w)))
            return t.ands(c1)
        return Shape([w for w in ws if w], build, None, pre)

    def wrong(self, p):
        return t.and_(p.done(), t.not_(self.good(p)))

    def decide(self, ci, timeout):
        c = self.classes[ci]
        todo, parts = [(tuple(common(lo, hi, w) for (lo, hi), w in zip(c.ranges, self.ws)), 0)], 0
        end = time.time() + timeout
        self.ok = lambda a, r: c.want(self.f, a, r)
        while todo:
            node, d = todo.pop()
            if any(h << (w - n) > hi or ((h + 1) << (w - n)) - 1 < lo for (h, n), w, (lo, hi) in zip(node, self.ws, c.ranges)):
                continue
            sh = self.shape(c, node)
            free = [t.var("s%d" % i, w) for i, w in enumerate(sh.widths)]
            pre = sh.pre(free)
            if pre is t.FALSE or c.extra and solve.check(pre, 5)[0] == "unsat":
                continue
            self._prep = None
            p = self.prep(sh)
            unw = t.ors([o.cond for o in p.ex.obl if o.kind == "unwind"])
            q = t.ands([t.ands(p.pc), t.or_(unw, self.wrong(p))])
            last = d >= self.deepest or not sh.widths
            r, env = solve.check(q, 10 if last else 2)
            if r == "unsat":
                parts += 1
                continue
            if r == "sat":
                rnd = random.Random(str(node))
                for i in range(40 if last else 5):
                    vals = t.evaluate([t.ands(p.pc)], {v.val: env.get(v.val, 0) for v in p.free})
                    rep = self.replay(p, env) if vals[0] else {"confirmed": False}
                    if rep["confirmed"]:
                        rep["text"] += " (%s)" % c.text
                        return {"status": "violation", "replay": rep}
                    env = {v.val: rnd.getrandbits(v.w) for v in p.free}
            if last or time.time() > end:
                return {"status": "unknown", "why": "%s: %s" % (c.text, "bounds too wide" if r == "sat" else "solver time-out")}
            k = d % len(node)
            while node[k][1] == self.ws[k] - (0 if k else c.low):
                k = (k + 1) % len(node)
            h, n = node[k]
            for b in (1, 0):
                todo.append((node[:k] + ((2 * h + b, n + 1),) + node[k + 1:], d + 1))
        return {"status": "unsat", "parts": parts}

    def validate(self, n, seed):
        self.ok = lambda a, r: t.TRUE
        return libm.FGoal.validate(self, n, seed)


# ------------------------------------------------------------------ what a result has to be
def nan(f, a, r):
    return fp.is_nan(f, r[0])


def value(v):
    def want(f, a, r):
        return t.eq(r[0], t.const(v if isinstance(v, int) else pat(f, v), f.w))
    return want


def arg(k=0):
    def want(f, a, r):
        return t.eq(r[0], a[k])
    return want


def signed(v, k=0):
    """v with the sign of argument k"""
    def want(f, a, r):
        return t.eq(r[0], t.concat(fp.sign(f, a[k]), t.const(pat(f, v), f.w - 1)))
    return want


def near(v, k=0):
    """as signed, up to one unit in the last place either way: the exact value is not representable"""
    def want(f, a, r):
        m = fp.mag(f, r[0])
        x = pat(f, v)
        return t.ands([t.eq(fp.sign(f, r[0]), fp.sign(f, a[k])), t.ule(t.const(x - 1, f.w - 1), m), t.ule(m, t.const(x + 1, f.w - 1))])
    return want


def absolute(k=0):
    def want(f, a, r):
        return t.eq(r[0], fp.fabs(f, a[k]))
    return want


# ------------------------------------------------------------------ ranges of bit patterns
class R:
    def __init__(self, f):
        self.f = f
        self.S = 1 << (f.w - 1)
        self.I = pat(f, float("inf"))
        self.top = self.S - 1
        self.all = (0, 2 * self.S - 1)
        self.notnan = [(0, self.I), (self.S, self.S | self.I)]
        self.finite = [(0, self.I - 1), (self.S, self.S | (self.I - 1))]
        self.nan = [(self.I + 1, self.top), (self.S | (self.I + 1), self.all[1])]
        self.inf = (self.I, self.I)
        self.ninf = (self.S | self.I, self.S | self.I)
        self.infs = [self.inf, self.ninf]
        self.zero, self.nzero = (0, 0), (self.S, self.S)
        self.zeros = [self.zero, self.nzero]
        self.pos, self.neg = (1, self.I - 1), (self.S | 1, self.S | (self.I - 1))

    def at(self, v):
        return (pat(self.f, v),) * 2

    def over(self, v):
        """finite numbers above v >= 0 and infinity"""
        return (pat(self.f, v) + 1, self.I)

    def under(self, v):
        """finite numbers below v <= 0 and -infinity"""
        return (pat(self.f, v) + 1, self.S | self.I)


def is_int(f, x, odd=False):
    """x finite is an integer (an odd one)"""
    e, m = fp.expf(f, x), fp.sig(f, x)
    out = []
    for k in range(f.sb + 1):               # unit bit at position f.sb - k
        i = f.sb - k
        low = t.eq(t.extract(m, i - 1, 0), t.const(0, i)) if i else t.TRUE
        bit = t.extract(m, i, i) if odd else t.TRUE
        out.append(t.ands([t.eq(e, t.const(f.bias + k, f.eb)), low, bit]))
    if not odd:
        out += [t.ult(t.const(f.bias + f.sb, f.eb), e), t.eq(fp.mag(f, x), t.const(0, f.w - 1))]
    return t.ors(out)


def unary(name, f):
    r = R(f)
    d = f.w == 64
    inf = float("inf")
    c = []

    def add(text, ranges, want, low=0):
        for x in ranges if isinstance(ranges, list) else [ranges]:
            c.append(Cls(text, [x], want, low=low))
    add("NaN", r.nan, nan)
    odd = "asin atan asinh atanh sin tan sinh tanh cbrt erf expm1 log1p sqrt".split()
    if name in odd:
        add("zero", r.zeros, arg())
    if name in ("asin", "acos", "atanh"):
        add("magnitude above 1", [r.over(1.0), r.under(-1.0)], nan)
    if name in ("sin", "cos", "tan"):
        add("infinity", r.infs, nan)
    if name in ("asinh", "cbrt", "sinh"):
        add("infinity", r.infs, arg())
    if name in ("acosh", "exp", "exp2", "exp10", "expm1", "log", "log2", "log10", "log1p", "sqrt", "lgamma", "tgamma"):
        add("+infinity", r.inf, value(inf))
    if name in ("cos", "cosh", "exp", "exp2", "exp10", "erfc"):
        add("zero", r.zeros, value(1.0))
    if name == "acos":
        add("1", r.at(1.0), value(0))
    if name == "atan":
        add("infinity", r.infs, near(PI / 2))
        add("magnitude above 2^66", [r.over(2.0**66), r.under(-2.0**66)], near(PI / 2))
    if name == "acosh":
        add("below 1", [(0, pat(f, 1.0) - 1), (r.S, pat(f, -0.5)), (pat(f, -2.0), r.S | r.I)], nan)
        add("1", r.at(1.0), value(0))
    if name == "atanh":
        add("1", [r.at(1.0), r.at(-1.0)], signed(inf))
    if name == "cosh":
        add("overflow", [r.over(2126.0 if d else 252.0), r.under(-2126.0 if d else -252.0)], value(inf))
    if name == "sinh":
        add("overflow", [r.over(2126.0 if d else 252.0), r.under(-2126.0 if d else -252.0)], signed(inf))
    if name == "tanh":
        add("saturation", [r.over(22.0 if d else 10.0), r.under(-22.0 if d else -10.0)], signed(1.0))
    if name == "erf":
        add("saturation", [r.over(6.0), r.under(-6.0)], signed(1.0))
    if name == "erfc":
        add("underflow", r.over(28.0), value(0))
        add("saturation", r.under(-28.0), value(2.0))
    if name == "exp":
        add("overflow", r.over(709.782712893384 if d else 88.72283172607422), value(inf))
        add("underflow", r.under(-745.1332191019412 if d else -103.97208404541016), value(0))
    if name == "exp2":
        top, low = (1024.0, -1075.0) if d else (128.0, -150.0)
        add("overflow", (pat(f, top), r.I), value(inf))
        add("underflow", (pat(f, low), r.S | r.I), value(0))
    if name == "exp10":
        add("overflow", r.over(310.0), value(inf))
        add("underflow", r.under(-325.0), value(0))
    if name == "expm1":
        add("overflow", r.over(709.782712893384 if d else 88.72283172607422), value(inf))
        add("saturation", r.under(-60.0 if d else -30.0), value(-1.0))
    if name in ("log", "log2", "log10"):
        add("zero", r.zeros, value(-inf))
        add("below 0", (r.S | 1, r.S | r.I), nan)
        add("1", r.at(1.0), value(0))
    if name == "log1p":
        add("-1", r.at(-1.0), value(-inf))
        add("below -1", r.under(-1.0), nan)
    if name == "sqrt":
        add("below 0", (r.S | 1, r.S | r.I), nan)
    if name == "lgamma":
        add("1 or 2", [r.at(1.0), r.at(2.0)], value(0))
        add("zero", r.zeros, value(inf))
        add("-infinity", r.ninf, value(inf))
        add("large negative integer", (pat(f, -4.0 * 2.0**f.sb), r.S | (r.I - 1)), value(inf))
    if name == "tgamma":
        add("zero", r.zeros, signed(inf))
        add("-infinity", r.ninf, nan)
        for k in range(f.sb):
            e = pat(f, -2.0**k)
            add("negative integer", (e, e | ((1 << f.sb) - 1)), nan, f.sb - k)
        add("large negative integer", (pat(f, -2.0**f.sb), r.S | (r.I - 1)), nan)
        add("overflow", r.over(184.0), value(inf))
    if name in ("j0", "j1"):
        add("+infinity", r.inf, value(0))
    if name == "j0":
        add("zero", r.zeros, value(1.0))
    if name == "j1":
        add("zero", r.zeros, arg())
    if name in ("y0", "y1"):
        add("+infinity", r.inf, value(0))
        add("zero", r.zeros, value(-inf))
        add("below 0", (r.S | 1, r.S | r.I), nan)
    return c


UNARY = ("acos acosh asin asinh atan atanh cbrt cos cosh erf erfc exp exp10 exp2 expm1 j0 j1 lgamma log log10 log1p log2 "
         "sin sinh sqrt tan tanh tgamma y0 y1").split()


def binary(name, f):
    r = R(f)
    inf = float("inf")
    c = []

    def aslist(x):
        return x if isinstance(x, list) else [x]

    def add(text, xs, ys, want, extra=None):
        for x in aslist(xs):
            for y in aslist(ys):
                c.append(Cls(text, [x, y], want, extra))
    one = r.at(1.0)
    if name == "atan2":
        add("NaN", r.nan, r.all, nan)
        add("NaN", r.all, r.nan, nan)
        add("zero, negative or -0", r.zeros, (r.S, r.S | r.I), near(PI))
        add("zero, positive or +0", r.zeros, (0, r.I), arg())
        add("non-zero, zero", [r.pos, r.neg], r.zeros, near(PI / 2))
        add("finite, -infinity", [r.pos, r.neg], r.ninf, near(PI))
        add("finite, +infinity", [r.pos, r.neg], r.inf, signed(0.0))
        add("infinity, finite", r.infs, r.finite, near(PI / 2))
        add("infinity, -infinity", r.infs, r.ninf, near(3 * PI / 4))
        add("infinity, +infinity", r.infs, r.inf, near(PI / 4))
    if name == "hypot":
        add("infinity", r.infs, r.all, value(inf))
        add("infinity", r.all, r.infs, value(inf))
        add("NaN", r.nan, r.finite, nan)
        add("NaN", r.finite, r.nan, nan)
        add("NaN", r.nan, r.nan, nan)
        add("zero", r.zeros, r.notnan, absolute(1))
        add("zero", r.notnan, r.zeros, absolute(0))
    if name == "pow":
        def odd(a):
            return is_int(f, a[1], True)

        def notodd(a):
            return t.not_(is_int(f, a[1], True))
        below1 = [(1, one[0] - 1), (r.S | 1, r.S | (one[0] - 1))]
        above1 = [(one[0] + 1, r.I), (r.S | (one[0] + 1), r.S | r.I)]
        add("exponent 0", r.all, r.zeros, value(1.0))
        add("base 1", one, r.all, value(1.0))
        add("NaN base", r.nan, [(1, r.top), (r.S | 1, r.all[1])], nan)
        add("NaN exponent", [(0, one[0] - 1), (one[0] + 1, r.all[1])], r.nan, nan)
        add("zero, negative odd", r.zeros, r.neg, signed(inf), odd)
        add("zero, negative not odd", r.zeros, r.neg, value(inf), notodd)
        add("zero, -infinity", r.zeros, r.ninf, value(inf))
        add("zero, positive odd", r.zeros, r.pos, arg(), odd)
        add("zero, positive not odd", r.zeros, r.pos, value(0), notodd)
        add("zero, +infinity", r.zeros, r.inf, value(0))
        add("-1, infinity", r.at(-1.0), r.infs, value(1.0))
        add("negative, not an integer", r.neg, [r.pos, r.neg], nan, lambda a: t.not_(is_int(f, a[1])))
        add("magnitude below 1, -infinity", below1, r.ninf, value(inf))
        add("magnitude above 1, -infinity", above1, r.ninf, value(0))
        add("magnitude below 1, +infinity", below1, r.inf, value(0))
        add("magnitude above 1, +infinity", above1, r.inf, value(inf))
        add("-infinity, negative odd", r.ninf, r.neg, signed(0.0), odd)
        add("-infinity, negative not odd", r.ninf, r.neg, value(0), notodd)
        add("-infinity, positive odd", r.ninf, r.pos, signed(inf), odd)
        add("-infinity, positive not odd", r.ninf, r.pos, value(inf), notodd)
        add("+infinity, negative", r.inf, r.neg, value(0))
        add("+infinity, positive", r.inf, r.pos, value(inf))
    if name in ("fmod", "remainder"):
        add("NaN", r.nan, r.all, nan)
        add("NaN", r.all, r.nan, nan)
        add("infinite dividend", r.infs, r.all, nan)
        add("zero divisor", r.all, r.zeros, nan)
        add("infinite divisor", r.finite, r.infs, arg())
        add("zero dividend", r.zeros, [(1, r.I), (r.S | 1, r.S | r.I)], arg())
    return c


BINARY = "atan2 hypot pow fmod remainder".split()


def goals(ck):
    ck.bounds += ["every member of each class of arguments (NaNs with every payload, infinities, zeros, arguments outside the domain, arguments past the overflow, underflow or saturation limit), f32 and f64. Outside: acosh between -2 and -1/2, lgamma at negative integers above -2^54 (f32: -2^25), arguments between the exact overflow limit and the class limit where that is a rounder number"]
    ck.assumptions += ["additions, multiplications, divisions and square roots of non-special operands give arbitrary values within the interval that follows from those of the operands",
                       "square root and fused multiply-add follow their specification (P19, P20) inside other functions"]
    c = libm.codes(ck)[0]
    ov = libm.primitives(c)
    for names, table, n in ((UNARY, unary, 1), (BINARY, binary, 2)):
        for b in names:
            for nm, f in libm.each(c, b):
                if f.w not in (32, 64):
                    continue
                g = Special(c, nm, None, fpsem=AbsFP(), overrides=ov, timeout=100, obls=False,
                            max_iter=2200 if b in ("fmod", "remainder") else 300,
                            fold=True)
                ck.add(g.setup(f, table(b, f), [f.w] * n))

"""P19: square root"""
from vf import fp, terms as t
from vf.check import Goal, Shape
from checks import libm

# free low bits of a window of significands
FREE = {32: 11, 64: 8, 128: 6}


def accept(f):
    """x lies strictly between the squares of the midpoints around the result"""
    def ok(a, r):
        x, y = a[0], r[0]
        w, ew = f.p + 2 * f.sb + 8, f.eb + 4
        m, n = t.zext(fp.sig(f, x), w), t.zext(fp.sig(f, y), w)
        # x = m * 2^(ex - bias - sb), y = n * 2^(ey - bias - sb)
        ex, ey = t.zext(fp.uexp(f, x), ew), t.zext(fp.expf(f, y), ew)
        s = t.add(t.sub(ex, t.shl_c(ey, 1)), t.const(f.bias + f.sb, ew))
        top = t.eq(fp.frac(f, y), t.const(0, f.sb))
        lo = t.sub(t.shl_c(n, 2), t.ite(top, t.const(1, w), t.const(2, w)))
        hi = t.add(t.shl_c(n, 2), t.const(2, w))
        big = t.const(0, w)
        for k in range(f.sb, 2 * f.sb + 2):
            big = t.ite(t.eq(s, t.const(k, ew)), t.shl_c(m, k + 4), big)
        fits = t.and_(t.ule(t.const(f.sb, ew), s), t.ule(s, t.const(2 * f.sb + 1, ew)))
        good = t.ands([t.not_(fp.sign(f, y)), fp.is_normal(f, y), fits, t.ult(t.mul(lo, lo), big), t.ult(big, t.mul(hi, hi))])
        same = t.or_(fp.is_zero_f(f, x), t.eq(x, fp.inf(f, t.FALSE)))
        bad = t.or_(fp.is_nan(f, x), fp.sign(f, x))
        return t.ite(same, t.eq(x, y), t.ite(bad, fp.is_nan(f, y), good))
    return ok


def special(f):
    return lambda a: t.ors([fp.sign(f, a[0]), t.not_(fp.is_finite(f, a[0])), fp.is_zero_f(f, a[0])])


def window(f, e, top, low):
    """arguments with the exponent field e, the leading six fraction bits top, and the remaining ones all equal to low above the free ones"""
    k = FREE[f.w]
    mid = f.sb - 6 - k
    head = t.const((e << 6 | top) << mid | (t.mask(mid) if low else 0), f.w - k)
    return Shape([k], lambda v: [t.concat(head, v[0])], lambda a: [t.trunc(a[0], k)])


def goals(ck):
    ck.bounds += ["binary16: every bit pattern",
                  "the other formats: every NaN, infinity, zero and negative argument, and for each of the 128 entries of the seed table one "
                  "(thorough: two) window of 2^11 (binary32), 2^8 (binary64) or 2^6 (binary128) consecutive arguments near one"]
    ck.outside += ["other significands and exponents of binary32, binary64 and binary128: a binary32 query with 13 free bits takes 16 s, "
                   "with 17 it times out at 100 s", "the hardware square root of the arch configuration"]
    c = libm.codes(ck)[0]
    for n, f in libm.each(c, "sqrt"):
        if f is fp.F16:
            ck.add(Goal(c, n, accept(f), timeout=100))
            continue
        ck.add(Goal(c, n, accept(f), pre=special(f), timeout=60, name="%s special arguments [%s]" % (n, c.key)))
        for low in (0,) if ck.quick else (0, 1):
            sh = [window(f, f.bias - 1 + b, top, low) for b in (0, 1) for top in range(64)]
            ck.add(Goal(c, n, accept(f), shapes=sh, cover=False, timeout=60, name="%s windows %d [%s]" % (n, low, c.key)))

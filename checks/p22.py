"""P22: modf, nextafter"""
from vf import check, fp, terms as t
from vf.check import Goal, want_f
from checks import libm


def modf(f):
    def ok(a, r):
        x, (fr, ip) = a[0], r
        tr = fp.round_int(f, x, "trunc")
        nan = fp.is_nan(f, x)
        # exact fraction: the significand bits below the binary point, renormalised
        ew = f.eb + 3
        E = t.sub(t.zext(fp.uexp(f, x), ew), t.const(f.bias, ew))
        keep = t.sub(t.const(f.sb, ew), E)        # number of fraction bits
        m = fp.sig(f, x)
        W = max(f.p, ew)
        one = t.shl(t.const(1, W), t.zext(keep, W))
        mask = t.extract(t.sub(one, t.const(1, W)), f.p - 1, 0)
        neg = t.slt(E, t.const(0, ew))
        none = t.sge(E, t.const(f.sb, ew))
        mm = t.ite(neg, m, t.ite(none, t.const(0, f.p), t.and_(m, mask)))
        e = t.sub(t.zext(fp.uexp(f, x), ew), t.const(f.bias + f.sb, ew))
        want = fp.round_pack(f, fp.sign(f, x), e, mm)
        want = t.ite(fp.is_inf(f, x), fp.zero(f, fp.sign(f, x)), want)
        return t.ite(nan, t.and_(fp.is_nan(f, fr), fp.is_nan(f, ip)), t.and_(t.eq(fr, want), t.eq(ip, tr)))
    return ok


def nextafter(f):
    def spec(a):
        x, y = a
        one = t.const(1, f.w)
        # order preserving map to signed integers with both zeros at 0
        up = fp.flt(f, x, y)
        mx = fp.mag(f, x)
        grow = t.eq(up, t.not_(fp.sign(f, x)))
        step = t.ite(grow, t.add(x, one), t.sub(x, one))
        fromzero = t.concat(fp.sign(f, y), t.const(1, f.w - 1))
        r = t.ite(t.is_zero(mx), fromzero, step)
        return t.ite(fp.unordered(f, x, y), fp.qnan(f), t.ite(fp.feq(f, x, y), y, r))
    return spec


def goals(ck):
    ck.bounds += ["every bit pattern (pair) of each format"]
    for c in libm.codes(ck):
        for n, f in libm.each(c, "modf"):
            ck.add(Goal(c, n, modf(f), outw=(f.w,), timeout=200))
        for n, f in libm.each(c, "nextafter"):
            ck.add(Goal(c, n, want_f(f, nextafter(f)), timeout=100))

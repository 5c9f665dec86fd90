"""P21: frexp, ilogb, scalbn, ldexp"""
from vf import check, fp, terms as t
from vf.check import Goal, want_f
from checks import libm


def logb(f, x):
    """floor(log2|x|) for finite non-zero x, 20 bits signed"""
    w = 20
    s = t.sub(t.zext(fp.uexp(f, x), w), t.const(f.bias, w))
    m = fp.sig(f, x)
    r = s
    for i in range(f.p):
        r = t.ite(t.bit(m, i), t.sub(s, t.const(f.sb - i, w)), r)
    return r


def frexp(f):
    def ok(a, r):
        x, (v, e) = a[0], r
        special = t.or_(fp.exp_ones(f, x), fp.is_zero_f(f, x))
        same = fp.same_t(f, v, x)
        E = t.add(logb(f, x), t.const(1, 20))
        # x = 1.frac * 2^(E-1): the fraction keeps the normalised significand with exponent -1
        nm, _ = fp.normalize(fp.sig(f, x))
        frac = t.concat(fp.sign(f, x), t.const(f.bias - 1, f.eb), t.extract(nm, f.sb - 1, 0))
        fin = t.and_(t.eq(v, frac), t.eq(e, t.sext(E, 32)))
        return t.ite(special, t.and_(same, t.or_(t.not_(fp.is_zero_f(f, x)), t.is_zero(e))), fin)
    return ok


def ilogb(f):
    def ok(a, r):
        x = a[0]
        e = t.sext(logb(f, x), 32)
        big = t.or_(t.eq(r[0], t.const(0x7fffffff, 32)), t.eq(r[0], t.const(0x80000000, 32)))
        return t.ite(fp.is_inf(f, x), t.eq(r[0], t.const(0x7fffffff, 32)),
                     t.ite(fp.is_nan(f, x), big,
                           t.ite(fp.is_zero_f(f, x), t.or_(t.eq(r[0], t.const(0x80000000, 32)),
                                                           t.eq(r[0], t.const(0x80000001, 32))), t.eq(r[0], e))))
    return ok


def scalbn(f):
    def spec(a):
        x, n = a
        ew = 36
        e = t.add(t.add(t.zext(fp.uexp(f, x), ew), t.sext(n, ew)), t.const(-(f.bias + f.sb), ew))
        r = fp.round_pack(f, fp.sign(f, x), e, fp.sig(f, x))
        return t.ite(fp.is_nan(f, x), fp.qnan(f), t.ite(fp.is_inf(f, x), x, r))
    return spec


def ncases(f):
    """split on the exponent argument and on subnormal operands"""
    def rng(lo, hi):
        return lambda a: t.and_(t.sle(t.const(lo, 32), a[1]), t.sle(a[1], t.const(hi, 32)))

    def both(c, sub):
        return lambda a: t.and_(c(a), t.eq(t.is_zero(fp.expf(f, a[0])), t.const(sub, 1)))
    m = 1 << (f.eb - 1)
    cuts = [(-(1 << 31), -2 * m + 1), (-2 * m + 2, -m + 2), (-m + 3, -f.p - 1), (-f.p, -f.p // 2), (-f.p // 2 + 1, -1), (0, f.p // 2), (f.p // 2 + 1, f.p), (f.p + 1, m - 1), (m, 2 * m), (2 * m + 1, (1 << 31) - 1)]
    return [both(rng(a, b), s) for a, b in cuts for s in (0, 1)]


def goals(ck):
    ck.bounds += ["every bit pattern of each format; every 32-bit exponent argument"]
    ck.assumptions += ["floating-point multiplication inside the scaling functions is the correctly rounded one (hardware, or P05 for software)"]
    for c in libm.codes(ck):
        for n, f in libm.each(c, "frexp"):
            ck.add(Goal(c, n, frexp(f), outw=(32,)))
        for n, f in libm.each(c, "ilogb"):
            ck.add(Goal(c, n, ilogb(f)))
        for base in ("scalbn", "ldexp"):
            for n, f in libm.each(c, base):
                ck.add(Goal(c, n, want_f(f, scalbn(f)), timeout=300 if f.p > 60 else 200, cases=ncases(f) if f.p > 60 else None))

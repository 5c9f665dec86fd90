"""P17: sign manipulation, minimum / maximum families, positive difference"""
from vf import check, fp, terms as t
from vf.check import Goal, want, want_f
from checks import libm
from checks.p16 import exported


def minmax(f, name):
    """acceptance predicate from the documented behaviour"""
    mx = "max" in name

    def ok(a, r):
        x, y = a
        r = r[0]
        nx, ny = fp.is_nan(f, x), fp.is_nan(f, y)
        lt, gt = fp.flt(f, x, y), fp.flt(f, y, x)
        pick_x, pick_y = (gt, lt) if mx else (lt, gt)
        # equal values: same bits, or zeros of opposite sign
        opp = t.and_(fp.feq(f, x, y), t.ne(x, y))
        zero = fp.zero(f, t.FALSE if mx else t.TRUE)
        either = t.or_(t.eq(r, x), t.eq(r, y))
        num = t.ite(pick_x, t.eq(r, x), t.ite(pick_y, t.eq(r, y), t.ite(opp, either if name in ("fmin", "fmax")
                                                                       else t.eq(r, zero), t.eq(r, x))))
        rn = fp.is_nan(f, r)
        if name in ("fmaximum", "fminimum"):
            return t.ite(t.or_(nx, ny), rn, num)
        return t.ite(t.and_(nx, ny), rn, t.ite(nx, t.eq(r, y), t.ite(ny, t.eq(r, x), num)))
    return ok


def fdim(f):
    return lambda a: t.ite(fp.unordered(f, a[0], a[1]), fp.qnan(f),
                           t.ite(fp.flt(f, a[1], a[0]), fp.fsub(f, a[0], a[1]), fp.zero(f, t.FALSE)))


def goals(ck):
    ck.bounds += ["every pair of bit patterns of each format"]
    ck.assumptions += ["the subtraction inside the positive difference is the correctly rounded one (hardware, or P04 for software)"]
    for c in libm.codes(ck) + [check.host()]:
        fns = libm.each if c.key.startswith("libmh") else exported
        for n, f in fns(c, "fabs"):
            ck.add(Goal(c, n, want(lambda a, f=f: fp.fabs(f, a[0]))))
        for n, f in fns(c, "copysign"):
            ck.add(Goal(c, n, want(lambda a, f=f: fp.copysign(f, a[0], a[1]))))
        for n, f in fns(c, "fdim"):
            ck.add(Goal(c, n, want_f(f, fdim(f)), timeout=100))
        for base in ("fmin", "fmax", "fminimum", "fmaximum", "fminimum_num", "fmaximum_num"):
            for n, f in fns(c, base):
                ck.add(Goal(c, n, minmax(f, base)))

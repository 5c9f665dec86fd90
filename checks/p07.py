"""P07: comparisons"""
from vf import check, terms as t, fp
from vf.check import Goal

SUF = [("hf2", fp.F16), ("sf2", fp.F32), ("df2", fp.F64), ("tf2", fp.F128)]


def rel(f, kind, tri=True):
    def ok(a, r):
        x, y = a
        r = r[0]
        z = t.const(0, r.w)
        un = fp.unordered(f, x, y)
        lt, eq = fp.flt(f, x, y), fp.feq(f, x, y)
        gt = fp.flt(f, y, x)
        if kind == "unord":
            return t.eq(t.ne(r, z), un)
        neg, pos, zero = t.slt(r, z), t.slt(z, r), t.eq(r, z)
        if kind in ("eq", "ne"):
            return t.eq(zero, eq)
        exact = t.ands([t.eq(neg, lt), t.eq(zero, eq), t.eq(pos, gt)])
        # unordered: the value must make the tested relation false
        if kind in ("lt", "le", "cmp"):
            return t.ite(un, pos, exact)
        return t.ite(un, neg, exact)
    return ok


def goals(ck):
    ck.bounds += ["every pair of bit patterns of each format"]
    for c in (check.host(), check.host(False)):
        for suf, f in SUF:
            for k in ("eq", "ne", "lt", "le", "gt", "ge", "cmp", "unord"):
                fn = "__%s%s" % (k, suf)
                if c.func(fn):
                    ck.add(Goal(c, fn, rel(f, k)))

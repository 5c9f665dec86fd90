"""P16: rounding to integral values"""
from vf import check, fp
from vf.check import Goal, want_f
from checks import libm

MODES = [("floor", "floor"), ("ceil", "ceil"), ("trunc", "trunc"), ("rint", "rne"), ("roundeven", "rne"), ("round", "away"),
         ("nearbyint", "rne")]


def goals(ck):
    ck.bounds += ["every bit pattern of each format; round-to-nearest mode for rint"]
    ck.outside += ["rint under a changed hardware rounding mode"]
    for c in libm.codes(ck) + [check.host()]:
        for base, mode in MODES:
            for n, f in libm.each(c, base) if c.key.startswith("libmh") else exported(c, base):
                ck.add(Goal(c, n, want_f(f, lambda a, f=f, mode=mode: fp.round_int(f, a[0], mode)), timeout=100))


def exported(c, base):
    for suf, f in libm.FMT:
        if c.func(base + suf):
            yield base + suf, f

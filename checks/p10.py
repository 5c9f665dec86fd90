"""P10: widening and narrowing"""
from vf import check, fp
from vf.check import Goal, want_f

FM = [("hf", fp.F16), ("sf", fp.F32), ("df", fp.F64), ("tf", fp.F128)]


def goals(ck):
    ck.bounds += ["every bit pattern of the source format"]
    for c in (check.host(), check.host(False)):
        for i, (a, fa) in enumerate(FM):
            for j, (b, fb) in enumerate(FM):
                for fn in ["__extend%s%s2" % (a, b)] if i < j else ["__trunc%s%s2" % (a, b)] if i > j else []:
                    if c.func(fn):
                        ck.add(Goal(c, fn, want_f(fb, lambda x, fa=fa, fb=fb: fp.convert(fa, fb, x[0])), timeout=120))
        for fn, fa, fb in (("__gnu_h2f_ieee", fp.F16, fp.F32), ("__gnu_f2h_ieee", fp.F32, fp.F16)):
            if c.func(fn):
                ck.add(Goal(c, fn, want_f(fb, lambda x, fa=fa, fb=fb: fp.convert(fa, fb, x[0])), timeout=120))

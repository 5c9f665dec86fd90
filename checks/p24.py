"""P24: no panic, overflow or out-of-bounds table access in the math functions"""
from vf import check, terms as t
from vf.absfp import AbsFP
from vf.check import argw
from checks import libm, p23

# functions whose loops run a number of times that depends on an argument
SKIP = [a + b for a in "jn yn fmod remainder remquo".split() for b in ("", "f", "f16", "f128")] + ["fmaf128"]


class Safe(p23.Special):
    def wrong(self, p):
        return t.ors([o.cond for o in p.ex.obl if o.kind != "unwind"])

    def setup(self, ws):
        return p23.Special.setup(self, None, [p23.Cls("any argument", [(0, t.mask(w)) for w in ws], lambda f, a, r: t.TRUE)], ws)


def goals(ck):
    ck.bounds += ["every bit pattern of every argument, in the build with overflow checks and debug assertions. Searched but not decided: pow, powf, exp10, f64 hypot, f64 lgamma, tgamma. Outside: jn, yn, fmod, remainder, remquo, fmaf128 (loops that depend on the arguments)"]
    ck.assumptions += ["additions, multiplications, divisions and square roots of non-special operands give arbitrary values within the interval that follows from those of the operands",
                       "square root and fused multiply-add follow their specification (P19, P20) inside other functions",
                       "the multi-word argument reduction (rem_pio2_large) is not entered"]
    c = check.harness("libmh", (), checked=True)
    ov = libm.primitives(c)
    for n in sorted(x[1:] for m in c.mods for x in m.funcs if x.startswith("@h_")):
        if n[2:] in SKIP:
            continue
        ws = [argw(ty) for nm, ty, at in c.func(n).params]
        ws = [w for w in ws if w is not None]
        g = Safe(c, n, None, fpsem=AbsFP(), overrides=ov, timeout=60, fold=True, max_iter=300)
        ck.add(g.setup(ws))

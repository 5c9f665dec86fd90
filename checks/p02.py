"""P02: integer division"""
import re
from vf import check, cms, native, symex, terms as t
from vf.check import Goal, Shape
from checks import targets

W = {"si": 32, "di": 64, "ti": 128}
SW = dict(limit=2, wide=6, budget=150, hard=False)


# ------------------------------------------------------------------ specification

def identity(n, d, q, r):
    """n = q*d + r with r < d, without wrapping"""
    w2 = 2 * n.w
    z = lambda x: t.zext(x, w2)
    return t.and_(t.eq(t.add(t.mul(z(q), z(d)), z(r)), z(n)), t.ult(r, d))


def exact(n, d):
    """quotient and remainder as terms; used for the replay of counterexamples and without a case split"""
    return t.udiv(n, d), t.urem(n, d)


def signs(a, sg):
    """magnitudes and the signs of dividend and divisor"""
    if not sg:
        return a[0], a[1], t.FALSE, t.FALSE
    w = a[0].w
    sa, sb = t.bit(a[0], w - 1), t.bit(a[1], w - 1)
    return t.ite(sa, t.neg(a[0]), a[0]), t.ite(sb, t.neg(a[1]), a[1]), sa, sb


def results(kind, q, r, sa, sb):
    q = t.ite(t.xor(sa, sb), t.neg(q), q)
    r = t.ite(sa, t.neg(r), r)
    return {"div": [q], "mod": [r], "divmod": [q, r]}[kind]


def accept(kind, sg, divide=exact):
    """results equal the ones computed from the quotient and remainder of the magnitudes"""
    def ok(a, r):
        n, d, sa, sb = signs(a, sg)
        q, m = divide(n, d)
        return t.ands([t.eq(x, y) for x, y in zip(r, results(kind, q, m, sa, sb))])
    ok.want = lambda a: t.concat(*results(kind, *exact(*signs(a, sg)[:2]), *signs(a, sg)[2:]))
    return ok


def by_identity(a, r):
    return identity(a[0], a[1], r[0], r[1])


# ------------------------------------------------------------------ shift and subtract: by the quotient's highest bit

def long_division(n, d, s):
    """(quotient, remainder, partial remainders, quotient bits) when the quotient has its top bit at s"""
    w = n.w
    if s < 0:
        return t.const(0, w), n, [], []
    bits, rems = [], []
    r = n
    for k in range(s, -1, -1):
        dk = t.shl_c(d, k)
        c = t.TRUE if k == s else t.uge(r, dk)
        r = t.ite(c, t.sub(r, dk), r)
        bits.append(c)
        rems.append(r)
    return t.resize(t.concat(*bits), w), r, rems, bits


def has_msb(n, d, s):
    """the quotient of n by d has its highest set bit at s (-1: it is zero)"""
    w = n.w
    c = t.nonzero(d)
    if s < 0:
        return t.and_(c, t.ult(n, d))
    if s:
        c = t.and_(c, t.is_zero(t.extract(d, w - 1, w - s)))
    ds = t.shl_c(d, s)
    return t.ands([c, t.ule(ds, n), t.ult(t.sub(n, ds), ds)])


def draw(w, s, sg, hi):
    def gen(rnd):
        for _ in range(60):
            if s < 0:
                d = rnd.getrandbits(rnd.randrange(1, w + 1)) or 1
                n = rnd.randrange(d)
            else:
                d = rnd.getrandbits(rnd.randrange(1, w - s + 1)) or 1
                if hi is not None:
                    d = (d | 1 << (w - 1 - s)) if hi else (d & ((1 << (w - 1 - s)) - 1)) or 1
                q = (1 << s) | (rnd.getrandbits(s) if s else 0)
                if hi:
                    q = 1 << s
                    if s and rnd.random() < .7:
                        q += rnd.getrandbits(rnd.randrange(1, s + 1))
                if rnd.random() < .3:
                    q = rnd.choice([1 << s, (2 << s) - 1])
                n = q * d + rnd.choice([0, d - 1, rnd.randrange(d)])
            if n < 1 << w:
                if not sg:
                    return [n, d]
                if max(n, d) <= 1 << (w - 1):
                    return [n, d] + [int(x == 1 << (w - 1) or x and rnd.getrandbits(1)) for x in (n, d)]
        return None
    return gen


def long_shapes(w, kind, sg):
    """variables: the magnitudes, then the signs"""
    out = []
    bld, sgn = sign_parts(w, sg)

    def build(v):
        return bld(v[0], v[1], v)

    def inv(a):
        n, d, sa, sb = signs(a, sg)
        return [n, d, sa, sb] if sg else [n, d]
    for s in range(-1, w):
        for hi in (0, 1) if s >= 0 else (None,):
            def pre(v, s=s, hi=hi):
                c = [has_msb(v[0], v[1], s)]
                if hi is not None:
                    c.append(t.eq(t.bit(v[1], w - 1 - s), t.const(hi, 1)))      # top bit of the divisor aligned with the quotient's
                return t.and_(t.ands(c), sgn(v[0], v[1], v))

            def hints(a, s=s, hi=hi):
                v = [t.var("s0", w), t.var("s1", w)]
                q, r, rems, bits = long_division(v[0], v[1], s)
                out = [v[0], v[1], t.ult(v[0], v[1])]
                for i, rm in enumerate(rems):
                    out.append(t.ult(rm, t.shl_c(v[1], s - i)))
                    out.append(rm)
                    for nb in (i + 1, i, i - 1):
                        # the partial remainder with the quotient bits shifted in below
                        if 0 < nb < w:
                            out.append(t.concat(t.trunc(rm, w - nb), *bits[i - nb + 1:i + 1]))
                return out

            def ok(a, r, s=s):
                if all(x.is_const for x in a):
                    return accept(kind, sg)(a, r)
                v = [t.var("s0", w), t.var("s1", w)]
                q, m = long_division(v[0], v[1], s)[:2]
                sa, sb = (t.var("s2", 1), t.var("s3", 1)) if sg else (t.FALSE, t.FALSE)
                return t.ands([t.eq(x, y) for x, y in zip(r, results(kind, q, m, sa, sb))])
            if s == w - 1 and hi == 0:
                continue
            sh = Shape([w, w] + ([1, 1] if sg else []), build, inv, pre=pre, hints=hints, ok=ok, gen=draw(w, s, sg, hi))
            sh.parts = lambda v: (v[0], v[1]) + ((v[2], v[3]) if sg else (t.FALSE, t.FALSE))
            out.append(sh)
    return out


# ------------------------------------------------------------------ quotient estimates: by the divisor's highest bit

def sign_parts(w, sg):
    """(build, inv, pre) of the two operands from magnitudes and signs"""
    h = t.const(1 << (w - 1), w)

    def build(n, d, v):
        return [t.ite(v[-2], t.neg(n), n), t.ite(v[-1], t.neg(d), d)] if sg else [n, d]

    def pre(n, d, v):
        # a magnitude of 2^(w-1) belongs to a negative number, zero does not
        return t.ands([t.ite(y, t.and_(t.nonzero(x), t.ule(x, h)), t.ult(x, h)) for x, y in ((n, v[-2]), (d, v[-1]))]) if sg else t.TRUE
    return build, pre


def lin_shapes(w, sg=False):
    h = w // 2
    build, pre = sign_parts(w, sg)
    ex = [1, 1] if sg else []

    def shape(b, mk):
        def inv(a):
            n, d, sa, sb = signs(a, sg)
            return [n] + ([t.trunc(d, b)] if b else []) + ([sa, sb] if sg else [])
        sh = Shape([w] + ([b] if b else []) + ex, lambda v: build(v[0], mk(v), v), inv,
                   pre=lambda v: t.and_(t.nonzero(mk(v)), pre(v[0], mk(v), v)))
        sh.parts = lambda v: (v[0], mk(v)) + ((v[-2], v[-1]) if sg else (t.FALSE, t.FALSE))
        return sh
    out = [shape(h, lambda v: t.zext(v[1], w))]
    for b in range(h, w):
        out.append(shape(b, lambda v: t.zext(t.concat(t.TRUE, v[1]), w)))
    return out


def other(core, kind, sg):
    """differs from the result computed with the combined unsigned routine on the magnitudes"""
    def via(g, p):
        n, d, sa, sb = p.shape.parts(p.free)
        g2 = Goal(g.code, core, None, outw=(n.w,), sret=targets.sret(g.code, core))
        f = g.code.func(core)
        ex = symex.Exec(g.code.mods, max_iter=n.w + 8)
        ex.fold = cms.Fold() if g.fold and cms.lib() else None
        o = ex.new_obj("rem", n.w // 8, "global", align=16)
        so = None
        args = []
        for i, (nm, ty, at) in enumerate(f.params):
            if check.argw(ty) is None:
                x = o
                if g2.sret and i == 0:
                    so = x = ex.new_obj("ret", g2.sret, "global", align=16)
                args.append(symex.Ptr([(t.TRUE, x, t.const(0, ex.ptrw))]))
            else:
                args.append(n if not any(not isinstance(y, symex.Ptr) for y in args) else d)
        r, mem, pc2 = ex.run(core, args, pc=p.pc)
        q = ex.get_cell(dict(mem[so.id]), 0, g2.sret, so) if so else g2.flatten(ex, r)[0]
        m = ex.get_cell(dict(ex.cells_of(mem, o)), 0, n.w // 8, o)
        return (t.ors([t.ne(x, y) for x, y in zip(p.rets, results(kind, q, m, sa, sb))]),
                t.ors([o.cond for o in ex.obl]))
    return via


def constants(p):
    """refutation only: divisors for which the quotient estimate is extreme; a constant divisor leaves a linear problem"""
    v = p.free[1]
    m = t.mask(v.w)
    out = []
    for x in (0, m, 1, m >> 1, m - (m >> 3), 1 << (v.w // 2), m >> (v.w // 2), 0x5555 * ((1 << 128) // 65535) & m, m - 1, (m >> 1) + 1, 3, 10):
        if x & m not in out:
            out.append(x & m)
    return [{v.id: t.const(x, v.w)} for x in out]


KINDS = [("__udivmod%s4", "divmod", False), ("__udiv%s3", "div", False), ("__umod%s3", "mod", False),
         ("__divmod%s4", "divmod", True), ("__div%s3", "div", True), ("__mod%s3", "mod", True)]


def pair_shapes(w, pairs):
    """by the highest bits of dividend and divisor"""
    out = []

    def num(v, b):
        return t.zext(t.concat(t.TRUE, v) if b else t.TRUE, w)
    for i, j in pairs:
        sh = Shape([i] * (i > 0) + [j] * (j > 0), lambda v, i=i, j=j: [num(v[0] if i else None, i), num(v[-1] if j else None, j)], None)
        sh.parts = lambda v, i=i, j=j: (num(v[0] if i else None, i), num(v[-1] if j else None, j), t.FALSE, t.FALSE)
        out.append(sh)
    return out


def window_shapes(w, items):
    """constant divisor, dividend constant except for a window of bits"""
    out = []
    for d, base, lo, nb in items:
        sh = Shape([nb], lambda v, d=d, base=base, lo=lo: [t.or_(t.const(base, w), t.shl_c(t.zext(v[0], w), lo)), t.const(d, w)], None)
        sh.parts = lambda v, sh=sh: tuple(sh.build(v)) + (t.FALSE, t.FALSE)
        out.append(sh)
    return out


def near(ck):
    """pairs of highest bits for which no iteration is needed: close to each other, a short divisor, or a short dividend"""
    if ck.quick:
        ps = {(i, i - k) for i in (64, 65, 71, 95, 96, 97, 110, 126, 127) for k in (0, 1, 2, 9, 20, 30, 31)}
        ps |= {(i, j) for i in (64, 70, 95, 96, 127) for j in (0, 1, 13, 30, 31)}
        return sorted(ps | {(63, 0), (63, 40), (63, 62), (40, 3), (31, 31), (20, 90), (127, 127), (5, 127)})
    return sorted({(i, j) for i in range(128) for j in range(128) if i - j < 32 or j < 32 or i < 64})


WINDOWS = [((1 << 33) + 1, 1 << 127, 103, 24), ((1 << 33) + 1, 1 << 100, 70, 20), ((1 << 40) - 1, 1 << 127, 0, 20),
           (0x123456789, 1 << 110, 80, 20), ((1 << 63) + 12345, 1 << 127, 100, 20), ((1 << 64) + 1, (1 << 128) - (1 << 40), 0, 16),
           ((1 << 80) - 1, 1 << 127, 90, 20), ((1 << 95) + 3, 1 << 127, 100, 20), (1 << 50, 3 << 126, 100, 20)]

# not decided within the quick time limit
HARD = (3, 6)


def windows(ck):
    return [x for i, x in enumerate(WINDOWS) if not ck.quick or i not in HARD]


SLOW = ["i686-unknown-linux-gnu", "thumbv6m-none-eabi"]


def goals(ck):
    ck.bounds += ["every dividend and every non-zero divisor, except 128-bit division without the arch feature",
                  "128-bit division without the arch feature: for the combined unsigned routine, operands whose highest bits form one of %d pairs "
                  "(of the 14304 for which the algorithm does not iterate), and windows of 16 to 24 dividend bits for %d divisors where it iterates"
                  % (len(near(ck)), len(windows(ck)))]
    ck.outside += ["division by zero, which the routines do not return from",
                   "iterating 128-bit divisions of the build without the arch feature, beyond the listed windows",
                   "128-bit division on 32-bit targets, 64-bit division on 32-bit targets other than x86"]
    nz = lambda a: t.nonzero(a[1])
    for c in targets.codes(ck, SLOW, SLOW):
        for ty, w in W.items():
            core = KINDS[0][0] % ty
            if not c.func(core) or c.key in SLOW and w == 128 or "thumb" in c.key and w > 32:
                continue
            txt = native.closure(c, c.func(core).name, types=False)
            hw = re.search(r"asm .*\bdiv ", txt)
            iterates = not hw and w == 128
            if "no arch" in c.key and not iterates:
                continue                     # same algorithm as with the feature
            for pat, kind, sg in KINDS:
                fn = pat % ty
                if not c.func(fn):
                    continue
                kw = dict(pre=nz, outw=(w,) if kind == "divmod" else (), sret=targets.sret(c, fn), fold=True, max_iter=w + 8)
                if iterates:
                    if fn == core:
                        ck.add(Goal(c, fn, by_identity, timeout=40, lin=40, shapes=pair_shapes(w, near(ck)), cover=False, **kw))
                        ck.add(Goal(c, fn, by_identity, timeout=60, shapes=window_shapes(w, windows(ck)), cover=False,
                                    name="%s, iterating [%s]" % (fn, c.key), **dict(kw, max_iter=8)))
                elif not hw:
                    ck.add(Goal(c, fn, accept(kind, sg), timeout=60, sweep=SW, shapes=long_shapes(w, kind, sg),
                                via=None if fn == core else other(core, kind, sg), **kw))
                elif fn == core:
                    ck.add(Goal(c, fn, by_identity, timeout=40, lin=40, fix=constants, shapes=lin_shapes(w), **kw))
                else:
                    ck.add(Goal(c, fn, accept(kind, sg), timeout=40, sweep=SW, concrete=False, shapes=lin_shapes(w, sg),
                                via=other(core, kind, sg), **kw))

"""P05: software floating-point multiplication"""
from vf import check, fp, terms as t
from vf.check import Goal, Shape, want_f
from checks import targets

FNS = [("__mulhf3", fp.F16), ("__mulsf3", fp.F32), ("__muldf3", fp.F64), ("__multf3", fp.F128)]
ALIAS = [("__aeabi_fmul", fp.F32), ("__aeabi_dmul", fp.F64)]


class Cls:
    """a class of floats: variable widths, the float and its (significand, exponent of the lowest bit) from the variables"""

    def __init__(self, f, kind, k=None):
        self.f, self.kind, self.k = f, kind, k
        self.widths = {"normal": [1, f.eb, f.sb], "sub": [1] + ([k] if k else []), "zero": [1], "max": [1, f.sb],
                       "anysub": [1, f.sb], "any": [f.w]}[kind]

    def value(self, v):
        f, k = self.f, self.k
        if self.kind in ("normal", "any"):
            return t.concat(*v) if len(v) > 1 else v[0]
        if self.kind == "anysub":
            return t.concat(v[0], t.const(0, f.eb), v[1])
        if self.kind == "zero":
            return t.concat(v[0], t.const(0, f.w - 1))
        if self.kind == "max":
            return t.concat(v[0], t.const(t.mask(f.eb), f.eb), v[1])
        return t.concat(v[0], t.const(1, f.w - 1 - k), *v[1:])

    def inv(self, x):
        f = self.f
        s = fp.sign(f, x)
        if self.kind == "normal":
            return [s, fp.expf(f, x), fp.frac(f, x)]
        if self.kind == "any":
            return [x]
        if self.kind in ("max", "anysub"):
            return [s, fp.frac(f, x)]
        return [s] + ([t.trunc(x, self.k)] if self.k else [])

    def pre(self, v):
        if self.kind == "anysub":
            return t.nonzero(v[1])
        if self.kind != "normal":
            return t.TRUE
        m = t.const(t.mask(self.f.eb), self.f.eb)
        return t.and_(t.nonzero(v[1]), t.ne(v[1], m))

    def parts(self, v):
        """normalised: significand of p bits with the top bit set, exponent of its lowest bit"""
        f = self.f
        ew = f.eb + 4
        if self.kind == "normal":
            return t.concat(t.TRUE, v[2]), t.add(t.zext(v[1], ew), t.const(-f.bias - f.sb, ew))
        z = f.sb - self.k
        return t.concat(t.TRUE, *v[1:], *([t.const(0, z)] if z else [])), t.const(1 - f.bias - f.sb - z, ew)


def accept(f):
    def ok(a, r):
        return fp.same_t(f, r[0], fp.fmul(f, a[0], a[1]))
    ok.want = want_f(f, lambda a: fp.fmul(f, a[0], a[1]))
    return ok


def product(f, a, b, w):
    """exact product; for binary128 written as the sum of the products of the 64-bit halves"""
    if f.w < 128:
        return t.mul(t.zext(a, w), t.zext(b, w))
    al, ah, bl, bh = t.extract(a, 63, 0), t.extract(a, a.w - 1, 64), t.extract(b, 63, 0), t.extract(b, b.w - 1, 64)
    r = t.const(0, w)
    for x, y, k in ((al, bl, 0), (al, bh, 64), (ah, bl, 64), (ah, bh, 128)):
        r = t.add(r, t.shl_c(t.zext(t.mul(t.zext(x, 128), t.zext(y, 128)), w), k))
    return r


def product_shape(f, ca, cb, under=None):
    """both operands finite and not zero"""
    na = len(ca.widths)

    def split(v):
        return v[:na], v[na:]

    def build(v):
        x, y = split(v)
        return [ca.value(x), cb.value(y)]

    def inv(a):
        return ca.inv(a[0]) + cb.inv(a[1])

    def pre(v):
        x, y = split(v)
        c = t.and_(ca.pre(x), cb.pre(y))
        if under is not None:
            e = t.add(ca.parts(x)[1], cb.parts(y)[1])
            lo, hi = under
            if lo is not None:
                c = t.and_(c, t.sle(t.const(lo, e.w), e))
            if hi is not None:
                c = t.and_(c, t.sle(e, t.const(hi, e.w)))
        return c

    def ok(a, r):
        if all(x.is_const for x in a):
            return accept(f)(a, r)
        v = [t.var("s%d" % i, w) for i, w in enumerate(ca.widths + cb.widths)]
        x, y = split(v)
        (ma, ea), (mb, eb) = ca.parts(x), cb.parts(y)
        w = 2 * f.w
        m = product(f, ma, t.concat(mb, t.const(0, f.eb)), w)
        e = t.sub(t.add(ea, eb), t.const(f.eb, ea.w))
        return t.eq(r[0], fp.round_pack(f, t.xor(x[0], y[0]), e, m))
    return Shape(ca.widths + cb.widths, build, inv, pre=pre, ok=ok)


def special_shape(f, ca, cb, want):
    """operands for which the significands do not matter: want(x, y) is the result, NaN results compared as NaN"""
    na = len(ca.widths)

    def ok(a, r):
        return accept(f)(a, r) if all(x.is_const for x in a) else fp.same_t(f, r[0], want(a[0], a[1]))
    return Shape(ca.widths + cb.widths, lambda v: [ca.value(v[:na]), cb.value(v[na:])], lambda a: ca.inv(a[0]) + cb.inv(a[1]),
                 pre=lambda v: t.and_(ca.pre(v[:na]), cb.pre(v[na:])), ok=ok)


def shapes(f, quick):
    N, Z, M, U, A = [Cls(f, k) for k in ("normal", "zero", "max", "anysub", "any")]
    ks = range(f.sb)
    if quick and f.w == 128:
        ks = [0, 47, 48, 63, 64, 111]
    hi = 2 - f.bias - f.sb
    out = [product_shape(f, N, N, (hi, None)), product_shape(f, N, N, (None, hi - 1))]
    for k in ks:
        s = Cls(f, "sub", k)
        out += [product_shape(f, s, N), product_shape(f, N, s)]

    def signed(m):
        return lambda x, y: t.concat(t.xor(fp.sign(f, x), fp.sign(f, y)), m)

    def extreme(x, y):
        s = t.xor(fp.sign(f, x), fp.sign(f, y))
        bad = t.ors([fp.is_nan(f, x), fp.is_nan(f, y), fp.is_zero_f(f, x), fp.is_zero_f(f, y)])
        return t.ite(bad, fp.qnan(f), fp.inf(f, s))

    def nothing(x, y):
        b = t.ite(fp.is_zero_f(f, x), y, x)
        z = t.concat(t.xor(fp.sign(f, x), fp.sign(f, y)), t.const(0, f.w - 1))
        return t.ite(fp.is_finite(f, b), z, fp.qnan(f))
    # the product of two subnormal numbers is far below half of the smallest one
    out.append(special_shape(f, U, U, signed(t.const(0, f.w - 1))))
    out += [special_shape(f, M, A, extreme), special_shape(f, A, M, extreme), special_shape(f, Z, A, nothing), special_shape(f, A, Z, nothing)]
    return out


def goals(ck):
    ck.bounds += ["every pair of operands of binary16, binary32 and binary64, and of binary128 in the thorough tier"]
    if ck.quick:
        ck.bounds.append("binary128: every pair except those with one subnormal operand, of which six positions of its highest bit are covered")
    for c in targets.codes(ck, ["thumbv6m-none-eabi"]):
        for fn, f in FNS + ALIAS:
            if not c.func(fn) or f.w == 128 and c.key != "x86_64" and ck.quick:
                continue
            part = ck.quick and f.w == 128
            ck.add(Goal(c, fn, accept(f), fold=True, timeout=120, absm={}, shapes=shapes(f, ck.quick), cover=not part, hunt=[few(f)],
                        hunt_timeout=60))


def few(f):
    """refutation only: significands with few free bits"""
    def h(a):
        k = max(0, f.sb - 6)
        c = []
        for x in a:
            m = t.extract(x, f.sb - 1, 0)
            c.append(t.or_(t.is_zero(t.extract(m, k - 1, 3)), t.is_zero(t.not_(t.extract(m, k - 1, 3)))))
        return t.ands(c)
    return h

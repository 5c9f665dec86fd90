"""P27: 256-bit integers, widening multiplication and narrowing division helpers"""
from vf import check, lin, terms as t
from vf.check import Goal, Shape

R2 = (128, 128)


def cat(r):
    """(high, low) results as one number"""
    return t.concat(r[0], r[1])


def ndiv(w):
    """some quotient and remainder exactly when the quotient fits half the width"""
    h = w // 2

    def ok(a, r):
        x = t.concat(a[0], a[1]) if len(a) == 3 else a[0]
        n = a[-1]
        some, q, m = t.nonzero(r[0]), r[1], r[2]
        fits = t.ult(t.extract(x, w - 1, h), n)
        z = lambda v: t.zext(v, w)
        ident = t.and_(t.eq(t.add(t.mul(z(q), z(n)), z(m)), x), t.ult(m, n))
        return t.and_(t.eq(some, fits), t.or_(t.not_(fits), ident))
    return ok


def ndiv_prim(w):
    """same, stated with the quotient and remainder of the full width"""
    h = w // 2

    def ok(a, r):
        x, n = a
        fits = t.ult(t.extract(x, w - 1, h), n)
        q, m = t.udiv(x, t.zext(n, w)), t.urem(x, t.zext(n, w))
        return t.and_(t.eq(t.nonzero(r[0]), fits),
                      t.or_(t.not_(fits), t.and_(t.eq(r[1], t.trunc(q, h)), t.eq(r[2], t.trunc(m, h)))))
    return ok


def ndiv_shapes(positions):
    """by the highest set bit of the divisor; the last one is the divisor zero"""
    out = []
    for b in positions:
        mk = lambda v, b=b: t.zext(t.concat(t.TRUE, v[2]) if b else t.TRUE, 128)
        out.append(Shape([128, 128] + [b] * (b > 0), lambda v, mk=mk: [v[0], v[1], mk(v)],
                         lambda a, b=b: [a[0], a[1]] + ([t.trunc(a[2], b)] if b else []),
                         pre=lambda v, mk=mk: t.ult(v[0], mk(v)), **({"via": scaled(b)} if b < 127 else {})))
    return out


def scaled(b):
    """differs from the division of both operands shifted left until the divisor's highest bit is at the top"""
    k = 127 - b

    def via(g, p):
        x, n = t.concat(p.vals[0], p.vals[1]), p.vals[2]
        xs, ns = t.shl_c(x, k), t.shl_c(n, k)
        top = Shape([], lambda v: [t.extract(xs, 255, 128), t.trunc(xs, 128), ns], None, pre=lambda v: t.ands(p.pc))
        p2 = g.encode(top)
        if not lemma(k):
            return None
        return (t.ors([t.ne(p.rets[0], p2.rets[0]), t.ne(p.rets[1], p2.rets[1]), t.ne(p.rets[2], t.lshr_c(p2.rets[2], k)),
                       t.not_(p2.done())]), t.ors([o.cond for o in p2.ex.obl]))
    return via


def lemma(k):
    """quotient and remainder of x*2^k by n*2^k give those of x by n"""
    q, r, n, x = t.var("q", 128), t.var("r", 128), t.var("n", 128 - k), t.var("x", 256 - k)
    z = lambda v: t.zext(v, 256)
    ns, xs = t.shl_c(t.zext(n, 128), k), t.shl_c(z(x), k)
    given = t.and_(t.eq(t.add(t.mul(z(q), z(ns)), z(r)), xs), t.ult(r, ns))
    m = t.lshr_c(r, k)
    then = t.and_(t.eq(t.add(t.mul(z(q), z(n)), z(m)), z(x)), t.ult(m, t.zext(n, 128)))
    fits = t.ult(t.extract(x, 255 - k, 128), n) if k < 128 else t.TRUE
    return lin.check(t.ands([fits, given, t.not_(then)]), 30) == "unsat"


def goals(ck):
    ck.bounds += ["every operand of every operation"]
    ck.outside += ["shift distances of 256 and more and, in debug builds, additions that overflow (documented preconditions)"]
    c = check.harness("bigh")
    g = lambda fn, ok, **kw: ck.add(Goal(c, fn, ok, **kw))
    A = lambda a: t.concat(a[0], a[1])
    B = lambda a: t.concat(a[2], a[3])
    for s in "ui":
        for n, f in (("add", t.add), ("sub", t.sub), ("or", t.or_)):
            g("b_%s%s" % (s, n), lambda a, r, f=f: t.eq(cat(r), f(A(a), B(a))), outw=R2)
        g("b_%snot" % s, lambda a, r: t.eq(cat(r), t.not_(A(a))), outw=R2)
        for n, f in (("shl", t.shl), ("shr", t.lshr if s == "u" else t.ashr)):
            g("b_%s%s" % (s, n), lambda a, r, f=f: t.eq(cat(r), f(A(a), t.zext(a[2], 256))), outw=R2,
              pre=lambda a: t.ult(a[2], t.const(256, 32)))
        for n, f in (("lt", t.ult if s == "u" else t.slt), ("le", t.ule if s == "u" else t.sle), ("eq", t.eq)):
            g("b_%s%s" % (s, n), lambda a, r, f=f: t.eq(r[0], t.zext(f(A(a), B(a)), 32)))
    z, x = lambda v: t.zext(v, 256), lambda v: t.sext(v, 256)
    for n, f in (("uwiden", z), ("iwiden", x), ("izwiden", z), ("uwidenhi", lambda v: t.concat(v, t.const(0, 128))),
                 ("iwidenhi", lambda v: t.concat(v, t.const(0, 128)))):
        g("b_" + n, lambda a, r, f=f: t.eq(cat(r), f(a[0])), outw=R2)
    for n in ("umul", "uzmul", "izmul"):
        g("b_" + n, lambda a, r: t.eq(cat(r), limbs(a[0], a[1])), outw=R2, absm={}, hunt=HUNT, timeout=60)
    for h, d in ((8, 16), (16, 32), (32, 64), (64, 128)):
        for s in "ui":
            e = t.zext if s == "u" else t.sext
            g("b_%s%dwmul" % (s, h), lambda a, r, d=d, e=e: t.eq(r[0], t.mul(e(a[0], d), e(a[1], d))))
            g("b_%s%dzmul" % (s, h), lambda a, r, d=d: t.eq(r[0], t.mul(t.zext(a[0], d), t.zext(a[1], d))))
            g("b_%s%dparts" % (s, d), lambda a, r, d=d, h=h: t.ands([
                t.eq(r[0], a[0]), t.eq(r[1], t.extract(a[0], d - 1, h)), t.eq(r[2], t.trunc(a[0], h))]), outw=(h, h))
        g("b_u%dndiv" % d, ndiv_prim(d), outw=(h, h))
    g("b_u256ndiv", ndiv(256), outw=R2, lin=60, timeout=60, shapes=ndiv_shapes(range(128)), fix=constants,
      pre=lambda a: t.ult(a[0], a[2]))
    g("b_u256ndiv", lambda a, r: t.is_zero(r[0]), pre=lambda a: t.ule(a[2], a[0]), outw=R2, name="b_u256ndiv, no quotient [%s]" % c.key)


def limbs(a, b):
    """the product as the sum of its 64-bit limb products"""
    al, ah, bl, bh = t.trunc(a, 64), t.extract(a, 127, 64), t.trunc(b, 64), t.extract(b, 127, 64)
    m = lambda x, y, k: t.shl_c(t.zext(t.mul(t.zext(x, 128), t.zext(y, 128)), 256), k)
    return t.add(t.add(m(al, bl, 0), m(ah, bh, 128)), t.add(m(al, bh, 64), m(ah, bl, 64)))


def constants(p):
    """refutation only: constant divisors leave a linear problem"""
    if len(p.free) < 3:
        return []
    v = p.free[2]
    m = t.mask(v.w)
    return [{v.id: t.const(x & m, v.w)} for x in (0, m, 1, m >> 1, 1 << (v.w // 2), m >> (v.w // 2), m - 1)]


# refutation only: constant second factors
HUNT = [lambda a, k=k: t.eq(a[1], t.const(k, 128)) for k in ((1 << 128) - 1, 1 << 64, (1 << 64) - 1, 3 << 62, 1)]

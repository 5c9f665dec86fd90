"""P04: software floating-point addition and subtraction"""
from vf import check, fp, symex, terms as t
from vf.check import Goal, Case, want_f
from checks import targets

FNS = [("__addhf3", "__subhf3", fp.F16), ("__addsf3", "__subsf3", fp.F32), ("__adddf3", "__subdf3", fp.F64),
       ("__addtf3", "__subtf3", fp.F128)]
ALIAS = [("__aeabi_fadd", "__aeabi_fsub", fp.F32), ("__aeabi_dadd", "__aeabi_dsub", fp.F64)]


def mant(rnd, f):
    k = rnd.randrange(5)
    m = rnd.getrandbits(f.sb)
    if k == 0:
        return m >> rnd.randrange(f.sb)
    if k == 1:
        return (m << rnd.randrange(f.sb)) & t.mask(f.sb)
    if k == 2:
        return t.mask(f.sb) ^ (m >> rnd.randrange(f.sb))
    return m


def pair_gen(f, lo, hi, opp, flip):
    """operands whose exponents differ by lo..hi"""
    def gen(rnd):
        top = (1 << f.eb) - 2
        d = rnd.randint(lo, hi)
        b = rnd.choice([rnd.randint(0, top), rnd.randint(0, 4), rnd.randint(top - 4, top)])
        a = max(b, 1) + d
        if not 0 <= a <= top:
            a, b = top, top - d
            if b < 0:
                return None
        s = rnd.getrandbits(1)
        s2 = s ^ opp ^ flip if opp is not None else rnd.getrandbits(1)
        x, y = a << f.sb | mant(rnd, f), b << f.sb | mant(rnd, f)
        if d == 0 and y > x:
            x, y = y, x
        return [s << (f.w - 1) | x, s2 << (f.w - 1) | y]
    return gen


def close_gen(f, d, k, u, flip):
    """opposite signs, equal or adjacent exponents, difference with its top bit at k (below the guard bits)"""
    def gen(rnd):
        top = (1 << f.eb) - 2
        e = u if u is not None else rnd.choice([rnd.randint(d, top), rnd.randint(d, min(2 * f.p, top)), rnd.randint(top - 4, top)])
        kk = k if k is not None else rnd.randint(0, f.p)
        df = 1 << kk | rnd.getrandbits(kk) if kk else 1
        if u is not None and rnd.randrange(4) == 0:
            df = 0
        if e == 0:
            m0 = rnd.getrandbits(f.sb)
        elif d == 1:
            m0 = rnd.choice([(1 << f.sb) | rnd.getrandbits(max(kk - 1, 0)) >> 1, (1 << f.sb) | rnd.getrandbits(f.sb), 1 << f.sb])
        else:
            m0 = (1 << f.sb) | rnd.getrandbits(f.sb)
        m1 = (m0 << d) - df
        e1 = e - d
        if e1 < 0:
            return None
        if e1 == 0 and not 0 <= m1 < 1 << f.sb and d == 0:
            return None
        if e1 == 0:
            e1 = 1 if m1 >> f.sb else 0
        if m1 < 0 or m1 >= 2 << f.sb or (e1 and not m1 >> f.sb):
            return None
        s = rnd.getrandbits(1)
        return [s << (f.w - 1) | e << f.sb | m0 & t.mask(f.sb), (s ^ 1 ^ flip) << (f.w - 1) | e1 << f.sb | m1 & t.mask(f.sb)]
    return gen


def finite(f, a):
    return t.and_(fp.is_finite(f, a[0]), fp.is_finite(f, a[1]))


def larger(f, a):
    return t.ule(fp.mag(f, a[1]), fp.mag(f, a[0]))


def region(f, flip, lo, hi, opp, top=None, below=None, uexp=None, normal=None, sub=None):
    """finite operands, |x| >= |y|, exponent difference in lo..hi, signs opposite or not, and optionally: the highest set
    bit of the aligned sum, an upper bound for the sum, the exponent of x, whether the sum is in the normal range"""
    def pred(a):
        W = f.eb + 2
        x, y = a[0], fp.fneg(f, a[1]) if flip else a[1]
        d = t.sub(t.zext(fp.uexp(f, x), W), t.zext(fp.uexp(f, y), W))
        c = [finite(f, a), larger(f, a), t.sle(t.const(lo, W), d), t.sle(d, t.const(hi, W))]
        o = t.xor(fp.sign(f, x), fp.sign(f, y))
        c.append(o if opp else t.not_(o))
        _, m = fp.add_parts(f, x, y)
        if top is not None:
            c.append(t.eq(t.extract(m, m.w - 1, top), t.const(1, m.w - top)))
        if below is not None:
            c.append(t.is_zero(t.extract(m, m.w - 1, below)))
        u = t.zext(fp.uexp(f, x), W)
        if uexp is not None:
            c.append(t.eq(u, t.const(uexp, W)))
        if sub is not None:
            z = [t.is_zero(fp.expf(f, v)) for v in (x, y)]
            c += [i if b else t.not_(i) for i, b in zip(z, sub)]
        if normal is not None:
            c.append(t.ult(t.const(normal, W), u))
        return t.ands(c)
    return pred


def with_sub(gen, f, sub):
    def g(rnd):
        v = gen(rnd)
        if v is None:
            return None
        for i in (0, 1):
            z = v[i] >> f.sb & t.mask(f.eb) == 0
            if sub[i] and not z:
                v[i] &= 1 << (f.w - 1) | t.mask(f.sb)
            if z and not sub[i]:
                v[i] |= 1 << f.sb
        return v
    return g


def both_sub(f, flip, k, opp):
    """both operands subnormal, |x| >= |y|, x with its highest set bit at k (-1: subnormal or zero, y zero)"""
    def pred(a):
        o = t.xor(fp.sign(f, a[0]), fp.sign(f, a[1]))
        if opp ^ flip == 0:
            o = t.not_(o)
        m = fp.mag(f, a[0])
        if k < 0:
            return t.ands([o, t.is_zero(fp.mag(f, a[1])), t.is_zero(fp.expf(f, a[0]))])
        top = t.eq(t.extract(m, m.w - 1, k), t.const(1, m.w - k))
        return t.ands([larger(f, a), o, top, t.is_zero(fp.expf(f, a[1])), t.not_(t.is_zero(fp.mag(f, a[1])))])
    return pred


def sub_gen(f, k, opp):
    def gen(rnd):
        x = rnd.getrandbits(f.sb) if k < 0 else 1 << k | rnd.getrandbits(k) if k else 1
        y = 0 if k < 0 else rnd.choice([rnd.randint(0, x), x - (rnd.randint(0, x) >> rnd.randint(0, k + 1)), rnd.randint(0, x) >> rnd.randint(0, k + 1)])
        if k >= 0 and y == 0:
            return None
        s = rnd.getrandbits(1)
        return [s << (f.w - 1) | x, (s ^ opp) << (f.w - 1) | y]
    return gen


def sub_hints(f, k, opp):
    """the significands, aligned the way an implementation which normalises x would"""
    def hints(a):
        x, y = (t.zext(t.extract(v, f.sb - 1, 0), f.w) for v in a)
        s = t.sub(x, y) if opp else t.add(x, y)
        return [t.shl(v, t.const(n, f.w)) for n in (f.sb - k, f.sb - k + 3, 3) for v in (x, y, s)]
    return hints


def cases(f, flip=False):
    """operands by order of magnitude, signs, exponent distance and position of the leading bit of the sum"""
    p, fl = f.p, int(flip)
    sw = dict(limit=0.1, wide=0.5, budget=30) if p < 60 else dict(limit=0.3, wide=2, budget=40)
    out = []
    top = 1 << f.eb
    out.append(Case(lambda a: t.and_(finite(f, a), t.not_(larger(f, a))), pair_gen(f, -8, 8, None, fl), sweep=sw,
                    via=None if flip else swapped))

    def add(gen, lo, hi, opp, subs, **kw):
        for sub in subs:
            out.append(Case(region(f, flip, lo, hi, opp, sub=sub, **kw), with_sub(gen, f, sub), sweep=sw))
    NN, NS = (0, 0), (0, 1)
    for k in range(-1, p - 1):
        for opp in (False, True):
            out.append(Case(both_sub(f, flip, k, opp), sub_gen(f, k, opp ^ flip), sweep=sw, hints=sub_hints(f, k, opp) if k >= 0 else None))
    for d in range(0, p + 5):
        lo, hi = (d, d) if d < p + 4 else (d, top)
        g = pair_gen(f, lo, min(hi, lo + 2 * p), 0, fl)
        add(g, lo, hi, False, [NN, NS])
        if d < 2:
            for pos in range(p + 3):
                # difference in the normal range
                add(close_gen(f, d, max(pos - 3 + d, 0), None, fl), lo, hi, True, [NN], top=pos, normal=p + 2 - pos)
            for u in range(1, p + 1):
                # and below it
                add(close_gen(f, d, None, u, fl), lo, hi, True, [NN] + ([NS] if u == 1 + d else []),
                    below=p + 3 - u, uexp=u)
            # one operand subnormal, difference normal
            add(pair_gen(f, lo, hi, 1, fl), lo, hi, True, [NS], normal=0)
        else:
            add(pair_gen(f, lo, min(hi, lo + 2 * p), 1, fl), lo, hi, True, [NN, NS])
    out.append(Case(lambda a: t.not_(finite(f, a))))
    return out


def other(fn, args):
    """fn differs from the function under test or does not return"""
    def via(g, p):
        ex = symex.Exec(g.code.mods)
        r, mem, pc = ex.run(fn or g.fn, args(p.vals))
        if ex.obl or pc is None:
            return None
        f = fp.BYW[r.w]
        return t.or_(t.not_(fp.same_t(f, r, p.rets[0])), t.not_(t.ands(pc)))
    return via


swapped = other(None, lambda a: [a[1], a[0]])


def goals(ck):
    ck.bounds += ["every pair of operands, split by sign combination, exponent difference and leading bit of the sum"]
    cs = [check.host(), check.host(False)] if ck.quick else targets.codes(ck)
    for c in cs:
        for an, sn, f in FNS + ALIAS:
            for fn, sub in ((an, False), (sn, True)):
                if not c.func(fn):
                    continue
                spec = (lambda a, f=f: fp.fsub(f, a[0], a[1])) if sub else (lambda a, f=f: fp.fadd(f, a[0], a[1]))
                via = other(an, lambda a, f=f: [a[0], fp.fneg(f, a[1])]) if sub and c.func(an) else None
                ck.add(Goal(c, fn, want_f(f, spec), timeout=100, via=via, cases=cases(f, sub) if f.p > 12 else None,
                            one=sub))

"""Floating-point arithmetic that is exact on special operands and bounded elsewhere.

NaNs, infinities, zeros, signs, exact cancellation and powers of two are decided exactly; the magnitude of any other
result is an uninterpreted function of the operands' magnitudes, kept within the interval that follows from the
intervals of the operands (rounding is monotone). What holds for every such function holds for IEEE arithmetic."""
from fractions import Fraction

from . import fp, terms as t
from .symex import ExactFP
from .terms import and_, or_, not_, ite, ands, ors


def ctop(f):
    return ((1 << f.eb) - 1) << f.sb


def top(f):
    """magnitude pattern of infinity"""
    return t.const(ctop(f), f.w - 1)


def clamp(x, lo, hi):
    """x brought into the constants' interval"""
    if x.is_const:
        return t.const(min(max(x.val, lo), hi), x.w)
    if lo == hi:
        return t.const(lo, x.w)
    if hi < t.mask(x.w):
        x = ite(t.ult(t.const(hi, x.w), x), t.const(hi, x.w), x)
    if lo:
        x = ite(t.ult(x, t.const(lo, x.w)), t.const(lo, x.w), x)
    return x


def value(f, m):
    """exact value of a finite magnitude pattern; None for infinity"""
    if m >= ctop(f):
        return None
    e, s = m >> f.sb, m & ((1 << f.sb) - 1)
    if e:
        s |= 1 << f.sb
    k = max(e, 1) - f.bias - f.sb
    return Fraction(s << k) if k >= 0 else Fraction(s, 1 << -k)


def pattern(f, v):
    """magnitude pattern nearest a non-negative rational"""
    if v is None:
        return ctop(f)
    if v == 0:
        return 0
    e = v.numerator.bit_length() - v.denominator.bit_length()
    if v < (Fraction(1 << e) if e >= 0 else Fraction(1, 1 << -e)):
        e -= 1
    k = max(e, 1 - f.bias) - f.sb
    u = v / (1 << k) if k >= 0 else v * (1 << -k)
    n, r = divmod(u.numerator, u.denominator)
    if 2 * r > u.denominator or 2 * r == u.denominator and n & 1:
        n += 1
    p = n if k == 1 - f.bias - f.sb else ((k + f.sb + f.bias - 1) << f.sb) + n
    return min(p, ctop(f))


def shifter(f, x):
    """constant whose last place is at least one half: adding it rounds to an integer"""
    e = x >> f.sb & ((1 << f.eb) - 1)
    return f.bias + f.sb - 1 <= e <= f.bias + f.sb + 1


class Info:
    """what is known of a value: sign (ignoring that of zeros and NaNs), magnitude pattern and its bounds"""
    __slots__ = ("s", "m", "lo", "hi")

    def __init__(self, s, m, lo, hi):
        self.s, self.m, self.lo, self.hi = s, m, lo, hi


class AbsFP(ExactFP):
    name = "exact on special operands, bounded elsewhere"

    def __init__(self):
        self.shifted, self.raw, self.bnd, self.cache = {}, {}, {}, {}
        self.keep = []

    # ---------------------------------------------------------------- bounds
    def bounds(self, m):
        """interval of a term read as unsigned"""
        if m.is_const:
            return m.val, m.val
        if m.id in self.bnd:
            return self.bnd[m.id]
        full = (0, t.mask(m.w))
        r = full
        if m.op == "concat":
            r = (0, 0)
            for a in m.args:
                lo, hi = self.bounds(a)
                r = (r[0] << a.w | lo, r[1] << a.w | hi)
        elif m.op == "ite":
            x, y = self.bounds(m.args[1]), self.bounds(m.args[2])
            r = (min(x[0], y[0]), max(x[1], y[1]))
        elif m.op == "zext":
            r = self.bounds(m.args[0])
        elif m.op == "extract" and m.val[1] == 0:
            lo, hi = self.bounds(m.args[0])
            r = (lo, hi) if hi <= full[1] else full
        self.bnd[m.id] = r
        self.keep.append(m)
        return r

    def info(self, f, x):
        k = (f.w, x.id)
        if k in self.cache:
            return self.cache[k]
        m = fp.mag(f, x)
        s = self.raw.get(x.id)
        if s is None and x.op == "ite" and (x.args[1].id in self.raw or x.args[2].id in self.raw):
            s = ite(x.args[0], self.info(f, x.args[1]).s, self.info(f, x.args[2]).s)
        if s is None:
            s = fp.sign(f, x)
            if (s.id, m.id) in self.raw:
                s = self.raw[s.id, m.id]
            elif (t.not_(s).id, m.id) in self.raw:
                s = not_(self.raw[t.not_(s).id, m.id])
        lo, hi = self.bounds(m)
        r = Info(s, m, lo, hi)
        self.cache[k] = r
        self.keep.append(x)
        return r

    def result(self, f, nan, s, raw, m, lo, hi):
        """number with the sign s (raw where it matters) and magnitude m, or NaN"""
        if nan is not t.FALSE:
            hi = t.mask(f.w - 1)
        mm = ite(nan, fp.mag(f, fp.qnan(f)), m)
        ss = ite(nan, t.FALSE, s)
        if not mm.is_const:
            old = self.bnd.get(mm.id, (0, t.mask(f.w - 1)))
            self.bnd[mm.id] = max(lo, old[0]), min(hi, old[1])
        r = t.concat(ss, mm)
        if not r.is_const:
            self.raw[r.id] = raw
            self.raw[ss.id, mm.id] = raw
        self.keep += [mm, ss, r]
        return r

    # ---------------------------------------------------------------- operations
    def bin(self, op, f, a, b):
        if a.is_const and b.is_const:
            return ExactFP.bin(self, op, f, a, b)
        if op == "fsub":
            b = self.neg(f, b)
            return self.add(f, a, b)
        return {"fadd": self.add, "fmul": self.mul, "fdiv": self.div}[op](f, a, b)

    def neg(self, f, b):
        i = self.info(f, b)
        r = fp.fneg(f, b)
        if not r.is_const:
            self.raw.setdefault(r.id, not_(i.s))
            self.keep.append(r)
        return r

    def add(self, f, a, b):
        for x, y in ((a, b), (b, a)):
            if x.is_const and shifter(f, x.val):
                v, c = self.shifted.get(y.id, (None, 0))
                if v is not None and c ^ x.val == 1 << (f.w - 1):
                    return self.rounded(f, v, y, x)
                r = fp.fadd(f, a, b)
                self.shifted[r.id] = (y, x.val)
                self.keep.append(r)
                return r
        A, B = self.info(f, a), self.info(f, b)
        if A.hi < B.lo:
            A, B = B, A
        T = ctop(f)
        ma, mb = A.m, B.m
        differ = t.xor(A.s, B.s)
        less = t.FALSE if A.lo >= B.hi else t.ult(ma, mb)
        big, small, s = ite(less, mb, ma), ite(less, ma, mb), ite(less, B.s, A.s)
        # bounds
        la, ha, lb, hb = (value(f, min(x, T)) for x in (A.lo, A.hi, B.lo, B.hi))
        add = (pattern(f, None if la is None or lb is None else la + lb), pattern(f, None if ha is None or hb is None else ha + hb))
        # a difference that is not zero is a multiple of the smaller last place
        u = max(min(A.lo, B.lo) >> f.sb, 1) - f.bias - f.sb
        dif = (pattern(f, Fraction(1 << u) if u >= 0 else Fraction(1, 1 << -u)), max(min(A.hi, T), min(B.hi, T)))
        if A.lo > B.hi and hb is not None:
            dif = (pattern(f, None if la is None else la - hb), pattern(f, None if ha is None else ha - lb))
        lo, hi = add if differ is t.FALSE else dif if differ is t.TRUE else (min(add[0], dif[0]), max(add[1], dif[1]))
        m = clamp(t.uf("add_%s" % f.name, [big, small, differ], f.w - 1), lo, hi)
        if differ is not t.TRUE and differ is not t.FALSE:
            m = ite(differ, clamp(m, *dif), clamp(m, *add))
        if differ is not t.FALSE and A.lo <= B.hi and (max(A.hi, B.hi) >> f.sb) - (min(A.lo, B.lo) >> f.sb) > 3:
            # |a| - |b| is at least |a| / 2 when |b| is at most |a| / 2
            n = t.const(1 << f.sb, f.w - 1)
            half = t.sub(big, n)
            far = ands([differ, t.ult(t.const((2 << f.sb) - 1, f.w - 1), big), t.ule(small, half)])
            m = ite(and_(far, t.ult(m, half)), half, m)
        if differ is not t.TRUE:
            c = and_(not_(differ), t.ult(m, big))
            m = ite(c, big, m)
        # an operand below a quarter of the other's last place is absorbed
        gap = f.p + 2
        if (B.hi >> f.sb) + gap <= A.lo >> f.sb:
            m = ma
        elif (B.lo >> f.sb) + gap <= A.hi >> f.sb or (A.lo >> f.sb) + gap <= B.hi >> f.sb:
            w = f.eb + 2
            eb, es = (t.zext(t.extract(x, f.w - 2, f.sb), w) for x in (big, small))
            m = ite(t.ule(t.add(es, t.const(gap, w)), eb), big, m)
        if min(A.lo, B.lo) == 0:
            m = ite(t.is_zero(small), big, m)
            if A.lo == 0 and B.lo == 0:
                m = ite(t.is_zero(big), big, m)
        cancel = and_(differ, t.eq(ma, mb)) if A.lo <= B.hi else t.FALSE
        inf = t.eq(big, top(f)) if max(A.hi, B.hi) >= T else t.FALSE
        nan = or_(t.ult(top(f), big), and_(inf, cancel)) if max(A.hi, B.hi) >= T else t.FALSE
        m = ite(inf, top(f), ite(cancel, t.const(0, f.w - 1), m))
        # signs of zeros: two zeros of different sign and exact cancellation give +0, so the true signs matter there
        sg = and_(not_(cancel), s)
        if A.lo == 0 and B.lo == 0:
            z = t.is_zero(big)
            sg = ite(z, and_(fp.sign(f, a), fp.sign(f, b)), sg)
        if cancel is not t.FALSE:
            lo = 0
        return self.result(f, nan, sg, s, m, min(lo, min(A.lo, T)) if differ is not t.FALSE and cancel is not t.FALSE else lo, hi)

    def rounded(self, f, v, y, x):
        """(v + c) - c with c rounding to an integer, which depends on |v| alone but for the sign"""
        c = f.bias + f.sb
        i = self.info(f, v)
        if x.val >> f.sb & ((1 << f.eb) - 1) != c or x.val & ((1 << f.sb) - 1) != 1 << (f.sb - 1):
            return fp.fadd(f, y, x)
        m = fp.mag(f, fp.round_int(f, fp.fabs(f, v), "rint"))
        small = t.TRUE if i.hi >> f.sb < c - 2 else t.ult(fp.expf(f, v), t.const(c - 2, f.eb))
        o = t.uf("shifted_%s" % f.name, [v], f.w)
        m = ite(small, m, fp.mag(f, o))
        s = ite(small, and_(i.s, not_(t.is_zero(m))), fp.sign(f, o))
        lo, hi = 0, t.mask(f.w - 1)
        if small is t.TRUE:
            lo, hi = (pattern(f, Fraction(round(value(f, k)))) for k in (i.lo, i.hi))
            m = clamp(m, lo, hi)
        return self.result(f, t.FALSE, s, ite(small, i.s, s), m, lo, hi)

    def mul(self, f, a, b):
        A, B = self.info(f, a), self.info(f, b)
        T = ctop(f)
        s = t.xor(fp.sign(f, a), fp.sign(f, b))
        raw = t.xor(A.s, B.s)
        la, ha, lb, hb = (value(f, min(x, T)) for x in (A.lo, A.hi, B.lo, B.hi))
        lo, hi = pattern(f, None if la is None or lb is None else la * lb), pattern(f, None if ha is None or hb is None else ha * hb)
        k = [fp._const_pow2(f, x) is not None for x in (a, b)]
        if any(k):
            r = ExactFP.bin(self, "fmul", f, fp.fabs(f, a), fp.fabs(f, b))
            m = fp.mag(f, r)
            nan = or_(fp.is_nan(f, a), fp.is_nan(f, b)) if max(A.hi, B.hi) > T else t.FALSE
            if nan is t.FALSE:
                m = clamp(m, lo, hi)
        else:
            less = t.TRUE if A.hi < B.lo else t.FALSE if A.lo >= B.hi else t.ult(A.m, B.m)
            m = clamp(t.uf("mul_%s" % f.name, [ite(less, B.m, A.m), ite(less, A.m, B.m)], f.w - 1), lo, hi)
            for x, y in ((A, B), (B, A)):
                m = self.relative(f, m, x, y)
            m, nan = self.special(f, m, A, B, False)
        return self.result(f, nan, s, raw, m, lo, hi)

    def relative(self, f, m, A, B):
        """bound a product by one factor's pattern, the other being at most a power of two"""
        if B.hi >= ctop(f) or (A.hi >> f.sb) - (A.lo >> f.sb) <= 3:
            return m
        k = (B.hi + t.mask(f.sb) >> f.sb) - f.bias      # |b| <= 2^k
        if abs(k) > f.bias // 2:
            return m
        c = t.const(abs(k) << f.sb, f.w - 1)
        if k >= 0:
            room = t.ult(A.m, t.const(ctop(f) - (k << f.sb), f.w - 1))
            hi = t.add(A.m, c)
        else:
            room = t.ult(t.const((1 - k << f.sb), f.w - 1), A.m)
            hi = t.sub(A.m, c)
        return ite(and_(room, t.ult(hi, m)), hi, m)

    def special(self, f, m, A, B, div):
        """zeros, infinities and NaNs of a product or quotient"""
        T = ctop(f)
        za, zb = (t.is_zero(x.m) if x.lo == 0 else t.FALSE for x in (A, B))
        ia, ib = (t.eq(x.m, top(f)) if x.hi >= T else t.FALSE for x in (A, B))
        na, nb = (t.ult(top(f), x.m) if x.hi > T else t.FALSE for x in (A, B))
        if div:
            zb, ib = ib, zb
        nan = ors([na, nb, and_(za, ib), and_(ia, zb)])
        return ite(or_(za, zb), t.const(0, f.w - 1), ite(or_(ia, ib), top(f), m)), nan

    def div(self, f, a, b):
        A, B = self.info(f, a), self.info(f, b)
        T = ctop(f)
        s = t.xor(fp.sign(f, a), fp.sign(f, b))
        raw = t.xor(A.s, ite(t.is_zero(B.m), fp.sign(f, b), B.s) if B.lo == 0 else B.s)
        la, ha, lb, hb = (value(f, min(x, T)) for x in (A.lo, A.hi, B.lo, B.hi))
        lo = 0 if hb is None else pattern(f, None if la is None or hb == 0 else la / hb)
        hi = pattern(f, None if ha is None or not lb else ha / lb)
        if lb is None:
            hi = 0 if ha is not None else T
        if A.m is B.m:
            lo = hi = f.bias << f.sb
        m = clamp(t.uf("div_%s" % f.name, [A.m, B.m], f.w - 1), lo, hi)
        m, nan = self.special(f, m, A, B, True)
        return self.result(f, nan, s, raw, m, lo, hi)

    def sqrt(self, f, a):
        if a.is_const:
            return t.const(c_sqrt(f, a.val), f.w)
        A = self.info(f, a)
        T = ctop(f)
        lo, hi = c_sqrt(f, min(A.lo, T)), c_sqrt(f, min(A.hi, T))
        m = clamp(t.uf("sqrt_%s" % f.name, [A.m], f.w - 1), lo, hi)
        z = t.is_zero(A.m) if A.lo == 0 else t.FALSE
        m = ite(z, t.const(0, f.w - 1), m)
        if A.hi >= T:
            m = ite(t.eq(A.m, top(f)), top(f), m)
        neg = and_(A.s, not_(z))
        nan = or_(fp.is_nan(f, a) if A.hi > T else t.FALSE, neg)
        return self.result(f, nan, and_(fp.sign(f, a), z), t.FALSE, m, lo, hi)

    def fma(self, f, a, b, c):
        if a.is_const and b.is_const and c.is_const:
            return fp.fma(f, a, b, c)
        A, B, C = (self.info(f, x) for x in (a, b, c))
        T = ctop(f)
        s = t.xor(fp.sign(f, a), fp.sign(f, b))
        raw = t.xor(A.s, B.s)
        differ = t.xor(raw, C.s)
        less = t.ult(A.m, B.m)
        m = [ite(less, B.m, A.m), ite(less, A.m, B.m)]
        # product and sum bounds; the sign is that of the larger
        vals = [None if None in (x, y) else x * y for x, y in ((value(f, min(A.lo, T)), value(f, min(B.lo, T))),
                                                                (value(f, min(A.hi, T)), value(f, min(B.hi, T))))]
        lc, hc = value(f, min(C.lo, T)), value(f, min(C.hi, T))
        hi = pattern(f, None if vals[1] is None or hc is None else vals[1] + hc)
        lo, g = 0, None
        if hc is not None and vals[0] is not None and vals[0] > hc:
            lo, g = pattern(f, vals[0] - hc), t.FALSE           # product dominates
        elif lc is not None and vals[1] is not None and lc > vals[1]:
            lo, g = pattern(f, lc - vals[1]), t.TRUE
        u = t.uf("fma_%s" % f.name, m + [C.m, differ], f.w)
        neg = fp.sign(f, u) if g is None else and_(differ, g)
        neg = and_(differ, neg)                                  # sign relative to that of the product
        mm = clamp(fp.mag(f, u), lo, hi)
        exact = and_(differ, t.uf("cancel_%s" % f.name, m + [C.m], 1)) if lo == 0 else t.FALSE
        rs = t.xor(raw, neg)
        sg = and_(rs, not_(and_(exact, t.is_zero(mm))))
        za, zb = (t.is_zero(x.m) if x.lo == 0 else t.FALSE for x in (A, B))
        pz = or_(za, zb)
        mm = ite(pz, C.m, mm)
        sg = ite(pz, ite(t.is_zero(C.m), and_(s, fp.sign(f, c)), fp.sign(f, c)), sg)
        rs = ite(pz, C.s, rs)
        nan = t.FALSE
        if max(A.hi, B.hi, C.hi) >= T:
            ia, ib, ic = (t.eq(x.m, top(f)) for x in (A, B, C))
            nan = ors([t.ult(top(f), x.m) for x in (A, B, C)] + [and_(za, ib), and_(ia, zb), ands([or_(ia, ib), ic, differ])])
            mm = ite(ors([ia, ib, ic]), top(f), mm)
            sg = ite(or_(ia, ib), s, ite(ic, fp.sign(f, c), sg))
            rs = ite(or_(ia, ib), raw, ite(ic, C.s, rs))
            hi = T
        if pz is not t.FALSE:
            lo = 0
        return self.result(f, nan, sg, rs, mm, lo, max(hi, min(C.hi, T)))

    def convert(self, fs, fd, x):
        r = fp.convert(fs, fd, x)
        if x.is_const or r.is_const:
            return r
        i = self.info(fs, x)
        c = [fp.convert(fs, fd, t.const(k, fs.w)).val for k in (i.lo, min(i.hi, ctop(fs)))]
        nan = fp.is_nan(fs, x) if i.hi > ctop(fs) else t.FALSE
        m = fp.mag(fd, r)
        if nan is t.FALSE:
            m = clamp(m, *c)
        return self.result(fd, nan, fp.sign(fd, r), i.s, m, *c)

    def from_int(self, f, x, signed):
        r = fp.from_int(f, x, signed)
        if r.is_const:
            return r
        m = fp.mag(f, r)
        hi = pattern(f, Fraction(1 << (x.w - 1 if signed else x.w)))
        if not signed:
            hi = min(hi, pattern(f, Fraction(self.bounds(x)[1])))
        self.bnd[m.id] = (0, min(hi, self.bounds(m)[1]))
        self.keep.append(m)
        return r

    def fcmp(self, f, pred, a, b):
        r = fp.fcmp(f, pred, a, b)
        if r.is_const or a.is_const and b.is_const:
            return r
        A, B = self.info(f, a), self.info(f, b)
        T = ctop(f)
        if max(A.hi, B.hi) > T:
            return r
        # both are numbers: decided when the intervals are apart
        ia, ib = self.signed(A), self.signed(B)
        if ia and ib:
            lt, gt = ia[1] < ib[0], ia[0] > ib[1]
            p = pred[1:]
            if (lt or gt) and p in ("eq", "ne", "lt", "le", "gt", "ge"):
                return t.TRUE if p == "ne" or p in ("lt", "le") and lt or p in ("gt", "ge") and gt else t.FALSE
        return r

    def signed(self, i):
        """interval of the value as a signed integer ordered like the numbers (both zeros 0)"""
        if i.s is t.FALSE:
            return i.lo, i.hi
        if i.s is t.TRUE:
            return -i.hi, -i.lo
        return -i.hi, i.hi


def c_sqrt(f, x):
    """correctly rounded square root of a bit pattern"""
    from math import isqrt
    s, e, m = x >> (f.w - 1), x >> f.sb & ((1 << f.eb) - 1), x & ((1 << f.sb) - 1)
    if x & t.mask(f.w - 1) == 0 or (e == (1 << f.eb) - 1 and (m or not s)):
        return x if not m else x | 1 << (f.sb - 1)
    if s:
        return fp.qnan(f).val
    m, e = (m | 1 << f.sb, e) if e else (m, 1)
    e -= f.bias + f.sb
    k = 2 * f.p + 8
    if (e - k) % 2:
        k += 1
    m <<= k
    e -= k
    r = isqrt(m)
    st = r * r != m
    n = r.bit_length() - f.p
    q, rest = r >> n, r & ((1 << n) - 1)
    half = 1 << (n - 1)
    if rest > half or rest == half and (st or q & 1):
        q += 1
    if q >> f.p:
        q >>= 1
        n += 1
    ex = e // 2 + n + f.sb + f.bias
    return ex << f.sb | (q & ((1 << f.sb) - 1))

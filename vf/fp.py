"""IEEE 754 binary arithmetic as bit-vector terms.

Used twice: as the reference a property is stated against, and as the meaning of
the floating point instructions that occur in the compiled code.  Every operation
rounds to nearest, ties to even.  NaN results are one canonical quiet NaN;
properties only ever speak about NaN-ness of a result.
"""
from . import terms as t
from .terms import (const, concat, extract, zext, sext, ite, and_, or_, not_, eq, ne, ult, ule, add, sub, bit, shl,
                    lshr, is_zero, nonzero, ands, ors, TRUE, FALSE)


class Fmt:
    def __init__(self, eb, sb, name):
        self.eb = eb
        self.sb = sb            # stored significand bits
        self.w = 1 + eb + sb
        self.p = sb + 1
        self.bias = (1 << (eb - 1)) - 1
        self.emin = 1 - self.bias
        self.emax = self.bias
        self.name = name

    def __repr__(self):
        return self.name


F16 = Fmt(5, 10, "f16")
F32 = Fmt(8, 23, "f32")
F64 = Fmt(11, 52, "f64")
F128 = Fmt(15, 112, "f128")
BYW = {16: F16, 32: F32, 64: F64, 128: F128}
BYNAME = {"half": F16, "float": F32, "double": F64, "fp128": F128}


def sign(f, x):
    return bit(x, f.w - 1)


def expf(f, x):
    return extract(x, f.w - 2, f.sb)


def frac(f, x):
    return extract(x, f.sb - 1, 0)


def mag(f, x):
    return extract(x, f.w - 2, 0)


def exp_ones(f, x):
    return eq(expf(f, x), const(-1, f.eb))


def is_nan(f, x):
    return and_(exp_ones(f, x), nonzero(frac(f, x)))


def is_inf(f, x):
    return and_(exp_ones(f, x), is_zero(frac(f, x)))


def is_finite(f, x):
    return not_(exp_ones(f, x))


def is_zero_f(f, x):
    return is_zero(mag(f, x))


def is_sub(f, x):
    return and_(is_zero(expf(f, x)), nonzero(frac(f, x)))


def is_normal(f, x):
    return and_(not_(exp_ones(f, x)), nonzero(expf(f, x)))


def inf(f, s):
    return concat(s, const(((1 << f.eb) - 1) << f.sb, f.w - 1))


def zero(f, s):
    return concat(s, const(0, f.w - 1))


def qnan(f):
    return const((((1 << f.eb) - 1) << f.sb) | (1 << (f.sb - 1)), f.w)


def fabs(f, x):
    return concat(const(0, 1), mag(f, x))


def fneg(f, x):
    return concat(not_(sign(f, x)), mag(f, x))


def copysign(f, x, y):
    return concat(sign(f, y), mag(f, x))


def sig(f, x):
    """p-bit integer significand (implicit bit included)"""
    return concat(nonzero(expf(f, x)), frac(f, x))


def uexp(f, x):
    """exponent field with subnormals mapped to 1 (eb bits); value = sig * 2^(uexp - bias - sb)"""
    return ite(is_zero(expf(f, x)), const(1, f.eb), expf(f, x))


def normalize(m):
    """(m shifted left so that its top bit is set, shift count); m == 0 gives (0, something)"""
    w = m.w
    k = 1
    while k * 2 < w:
        k *= 2
    cnt = []
    while k >= 1:
        z = is_zero(extract(m, w - 1, w - k))
        cnt.append(z)
        m = ite(z, t.shl_c(m, k), m)
        k //= 2
    return m, concat(*cnt)


def sticky_lshr(m, s):
    """m >> s with the bits shifted out or-ed into bit 0 (m, s any widths; s unsigned)"""
    w = m.w
    st = FALSE
    i = 0
    while (1 << i) < w:
        if i < s.w:
            b = bit(s, i)
            k = 1 << i
            st = or_(st, and_(b, nonzero(extract(m, k - 1, 0))))
            m = ite(b, t.lshr_c(m, k), m)
        i += 1
    if i < s.w:
        big = nonzero(extract(s, s.w - 1, i))
        st = or_(st, and_(big, nonzero(m)))
        m = ite(big, const(0, w), m)
    return concat(extract(m, w - 1, 1), or_(bit(m, 0), st)) if w > 1 else or_(m, st)


def round_pack(f, s, e, m):
    """Correctly rounded (RNE) float for (-1)^s * m * 2^e, m unsigned of any width, e signed.

    The lowest bit of m may be a sticky bit as long as m carries at least two bits
    more than the precision after normalisation.  m == 0 gives a zero of sign s."""
    W = max(m.w, f.p + 3)
    m0 = m
    pad = W - m.w
    if pad:
        m = concat(m, const(0, pad))
    ew = max(e.w, f.eb + 2, W.bit_length() + 2) + 2
    e = sext(e, ew)
    m, lz = normalize(m)
    # value = (m / 2^(W-1)) * 2^E
    E = add(sub(e, zext(lz, ew)), const(W - 1 - pad, ew))
    # distance below the normal range
    low = t.slt(E, const(f.emin, ew))
    dist = ite(low, sub(const(f.emin, ew), E), const(0, ew))
    m = sticky_lshr(m, dist)
    keep = extract(m, W - 1, W - f.p)
    rest = extract(m, W - f.p - 1, 0)
    half = bit(rest, rest.w - 1)
    below = nonzero(extract(rest, rest.w - 2, 0))
    up = and_(half, or_(below, bit(keep, 0)))
    biased = ite(low, const(0, ew), sub(add(E, const(f.bias, ew)), const(1, ew)))
    # biased is the exponent field minus the implicit bit contribution
    over = t.sge(biased, const((1 << f.eb) - 2, ew))
    body = add(concat(extract(biased, f.eb - 1, 0), const(0, f.sb)), zext(keep, f.w - 1))
    body = add(body, zext(up, f.w - 1))
    infm = const(((1 << f.eb) - 1) << f.sb, f.w - 1)
    body = ite(over, infm, body)
    body = ite(is_zero(m0), const(0, f.w - 1), body)
    return concat(s, body)


# ---------------------------------------------------------------- arithmetic

def add_parts(f, x, y):
    """(larger operand, magnitude of the aligned sum with guard, round and sticky bit) for finite operands"""
    a_ge = ule(mag(f, y), mag(f, x))
    hi, lo = ite(a_ge, x, y), ite(a_ge, y, x)
    d = sub(uexp(f, hi), uexp(f, lo))
    g = 3             # guard, round and sticky bit: enough for one rounding of an aligned sum
    mh = concat(sig(f, hi), const(0, g))
    ml = sticky_lshr(concat(sig(f, lo), const(0, g)), d)
    W = f.p + g + 1
    diff = t.xor(sign(f, x), sign(f, y))
    mh, ml = zext(mh, W), zext(ml, W)
    return hi, ite(diff, sub(mh, ml), add(mh, ml))


def add_finite(f, x, y):
    """x + y for finite operands"""
    hi, m = add_parts(f, x, y)
    s = ite(is_zero(m), and_(sign(f, x), sign(f, y)), sign(f, hi))
    e = sub(zext(uexp(f, hi), f.eb + 3), const(f.bias + f.sb + 3, f.eb + 3))
    return round_pack(f, s, e, m)


def fadd(f, x, y):
    r = add_finite(f, x, y)
    xi, yi = is_inf(f, x), is_inf(f, y)
    nan = ors([is_nan(f, x), is_nan(f, y), ands([xi, yi, t.xor(sign(f, x), sign(f, y))])])
    r = ite(xi, x, ite(yi, y, r))
    return ite(nan, qnan(f), r)


def fsub(f, x, y):
    return fadd(f, x, fneg(f, y))


def _const_pow2(f, x):
    """k when x is the constant +-2^k with normal exponent, else None"""
    if x.is_const:
        v = x.val & ((1 << (f.w - 1)) - 1)
        e = v >> f.sb
        if v & ((1 << f.sb) - 1) == 0 and 0 < e < (1 << f.eb) - 1:
            return e - f.bias
    return None


def mul_finite(f, x, y, product=None):
    s = t.xor(sign(f, x), sign(f, y))
    for a, b in ((x, y), (y, x)):
        k = _const_pow2(f, b)
        if k is not None:
            if k == 0:
                return concat(s, mag(f, a))
            e = add(zext(uexp(f, a), f.eb + 4), const(k - f.bias - f.sb, f.eb + 4))
            return round_pack(f, s, e, sig(f, a))
    if product is None:
        product = t.mul(zext(sig(f, x), 2 * f.p), zext(sig(f, y), 2 * f.p))
    ew = f.eb + 4
    e = add(add(zext(uexp(f, x), ew), zext(uexp(f, y), ew)), const(-2 * (f.bias + f.sb), ew))
    return round_pack(f, s, e, product)


def fmul(f, x, y, product=None):
    s = t.xor(sign(f, x), sign(f, y))
    r = mul_finite(f, x, y, product)
    xi, yi = is_inf(f, x), is_inf(f, y)
    nan = ors([is_nan(f, x), is_nan(f, y), and_(xi, is_zero_f(f, y)), and_(yi, is_zero_f(f, x))])
    r = ite(or_(xi, yi), inf(f, s), r)
    return ite(nan, qnan(f), r)


def fdiv(f, x, y):
    s = t.xor(sign(f, x), sign(f, y))
    k = _const_pow2(f, y)
    if k is not None:
        ew = f.eb + 4
        e = add(zext(uexp(f, x), ew), const(-k - f.bias - f.sb, ew))
        r = round_pack(f, s, e, sig(f, x)) if k else concat(s, mag(f, x))
    else:
        ma, la = normalize(sig(f, x))
        mb, lb = normalize(sig(f, y))
        W = 2 * f.p + 3
        n = zext(concat(ma, const(0, f.p + 2)), W)
        d = zext(mb, W)
        q, r_ = t.udiv(n, d), t.urem(n, d)
        qw = extract(q, f.p + 3, 0)
        m = concat(qw, nonzero(r_))
        ew = f.eb + 4
        e = sub(sub(zext(uexp(f, x), ew), zext(uexp(f, y), ew)), sub(zext(la, ew), zext(lb, ew)))
        e = add(e, const(-(f.p + 3), ew))
        r = round_pack(f, s, e, m)
    xi, yi = is_inf(f, x), is_inf(f, y)
    xz, yz = is_zero_f(f, x), is_zero_f(f, y)
    nan = ors([is_nan(f, x), is_nan(f, y), and_(xi, yi), and_(xz, yz)])
    r = ite(or_(xi, yz), inf(f, s), ite(or_(yi, xz), zero(f, s), r))
    return ite(nan, qnan(f), r)


def fma(f, x, y, z, product=None):
    """correctly rounded x*y+z"""
    p = f.p
    sp = t.xor(sign(f, x), sign(f, y))
    if product is None:
        product = t.mul(zext(sig(f, x), 2 * p), zext(sig(f, y), 2 * p))
    ew = f.eb + 5
    ep = add(add(zext(uexp(f, x), ew), zext(uexp(f, y), ew)), const(-2 * (f.bias + f.sb), ew))
    ez = add(zext(uexp(f, z), ew), const(-(f.bias + f.sb), ew))
    # product as 2p bits at exponent ep, z as p bits at ez; align into a wide window with sticky
    G = 2 * p + 4
    # normalise both so that the alignment distance is bounded by the leading bits
    np_, lp = normalize(product)
    nz_, lzz = normalize(sig(f, z))
    ep = sub(ep, zext(lp, ew))
    ez = sub(sub(ez, zext(lzz, ew)), const(p, ew))
    a = np_                                   # 2p bits, top set, exponent ep (of lsb)
    b = concat(nz_, const(0, p))              # 2p bits, top set, exponent ez
    pz, zz = is_zero(product), is_zero_f(f, z)
    swap = or_(pz, and_(not_(zz), or_(t.slt(ep, ez), and_(eq(ep, ez), ult(a, b)))))
    hi, lo = ite(swap, b, a), ite(swap, a, b)
    eh, el = ite(swap, ez, ep), ite(swap, ep, ez)
    sh, sl = ite(swap, sign(f, z), sp), ite(swap, sp, sign(f, z))
    d = ite(or_(pz, zz), const(0, ew), sub(eh, el))
    W = 2 * p + G + 1
    mh = zext(concat(hi, const(0, G)), W)
    ml = zext(sticky_lshr(concat(lo, const(0, G)), d), W)
    m = ite(t.xor(sh, sl), sub(mh, ml), add(mh, ml))
    s = ite(is_zero(m), and_(sp, sign(f, z)), sh)
    r = round_pack(f, s, sub(eh, const(G, ew)), m)
    xi, yi, zi = is_inf(f, x), is_inf(f, y), is_inf(f, z)
    nan = ors([is_nan(f, x), is_nan(f, y), is_nan(f, z), and_(xi, is_zero_f(f, y)), and_(yi, is_zero_f(f, x)),
               ands([or_(xi, yi), zi, t.xor(sp, sign(f, z))])])
    r = ite(or_(xi, yi), inf(f, sp), ite(zi, z, r))
    return ite(nan, qnan(f), r)


# ---------------------------------------------------------------- comparison

def unordered(f, x, y):
    return or_(is_nan(f, x), is_nan(f, y))


def feq(f, x, y):
    return and_(not_(unordered(f, x, y)), or_(eq(x, y), and_(is_zero_f(f, x), is_zero_f(f, y))))


def _lt_nonan(f, x, y):
    sx_, sy = sign(f, x), sign(f, y)
    bothz = and_(is_zero_f(f, x), is_zero_f(f, y))
    return ite(sx_, ite(sy, ult(mag(f, y), mag(f, x)), not_(bothz)), ite(sy, FALSE, ult(mag(f, x), mag(f, y))))


def flt(f, x, y):
    return and_(not_(unordered(f, x, y)), _lt_nonan(f, x, y))


def fle(f, x, y):
    return and_(not_(unordered(f, x, y)), or_(_lt_nonan(f, x, y), feq(f, x, y)))


def fcmp(f, pred, x, y):
    un = unordered(f, x, y)
    if pred == "ord":
        return not_(un)
    if pred == "uno":
        return un
    if pred == "true":
        return TRUE
    if pred == "false":
        return FALSE
    base = {"eq": feq, "lt": flt, "le": fle, "gt": lambda f, a, b: flt(f, b, a), "ge": lambda f, a, b: fle(f, b, a),
            "ne": lambda f, a, b: and_(not_(unordered(f, a, b)), not_(feq(f, a, b)))}[pred[1:]](f, x, y)
    return or_(un, base) if pred[0] == "u" else base


# ---------------------------------------------------------------- conversions

def from_int(f, x, signed):
    """nearest float of an integer"""
    if signed:
        s = bit(x, x.w - 1)
        m = ite(s, t.neg(x), x)
    else:
        s = FALSE
        m = x
    return round_pack(f, s, const(0, 4), m)


def convert(fs, fd, x):
    """float format conversion, rounding when narrowing"""
    s = sign(fs, x)
    ew = max(fs.eb, fd.eb) + 3
    e = add(zext(uexp(fs, x), ew), const(-(fs.bias + fs.sb), ew))
    r = round_pack(fd, s, e, sig(fs, x))
    r = ite(is_inf(fs, x), inf(fd, s), r)
    return ite(is_nan(fs, x), qnan(fd), r)


def trunc_mag(f, x, w):
    """(integer part of |x| on w bits, overflow flag that |x| >= 2^w) for non-NaN x"""
    ew = max(f.eb, w.bit_length(), f.p.bit_length()) + 2
    E = sub(zext(expf(f, x), ew), const(f.bias, ew))       # floor(log2|x|) for normal x
    m = sig(f, x)
    W = max(w, f.p)
    # place the significand at the top of a W-bit word, shift right by W-1-E
    top = concat(m, const(0, W - f.p)) if W > f.p else m
    sh = sub(const(W - 1, ew), E)
    neg = t.slt(E, const(0, ew))
    v = lshr(zext(top, max(W, ew)), zext(sh, max(W, ew)))
    v = extract(v, W - 1, 0)
    v = ite(neg, const(0, W), v)
    over = or_(t.sge(E, const(w, ew)), exp_ones(f, x))
    if W > w:
        over = or_(over, FALSE)
        v = extract(v, w - 1, 0)
    return v, over


def to_int_sat(f, x, w, signed):
    """truncation towards zero, saturating, NaN -> 0"""
    v, over = trunc_mag(f, x, w)
    s = sign(f, x)
    if signed:
        maxv, minv = const((1 << (w - 1)) - 1, w), const(1 << (w - 1), w)
        big = or_(over, bit(v, w - 1))
        pos = ite(big, maxv, v)
        neg_ = ite(or_(over, ult(minv, v)), minv, t.neg(v))
        r = ite(s, neg_, pos)
    else:
        r = ite(s, const(0, w), ite(over, const(-1, w), v))
    return ite(is_nan(f, x), const(0, w), r)


def round_int(f, x, mode):
    """round to integral value in the same format; mode: trunc floor ceil rne away"""
    ew = f.eb + 2
    E = sub(zext(expf(f, x), ew), const(f.bias, ew))
    big = t.sge(E, const(f.sb, ew))                # already integral (or inf/nan)
    small = t.slt(E, const(0, ew))                 # |x| < 1
    s = sign(f, x)
    # number of fractional bits when 0 <= E < sb
    nf = sub(const(f.sb, ew), E)
    ws = max(f.w, ew)
    one = t.shl(const(1, ws), zext(nf, ws))
    fmask = extract(sub(one, const(1, ws)), f.w - 2, 0)
    m = mag(f, x)
    fr = and_(m, fmask)
    tr = and_(m, not_(fmask))
    half = extract(t.lshr_c(one, 1), f.w - 2, 0)
    nz = nonzero(fr)
    if mode == "trunc":
        up = FALSE
    elif mode == "floor":
        up = and_(s, nz)
    elif mode == "ceil":
        up = and_(not_(s), nz)
    elif mode == "away":
        up = ule(half, fr)
    else:
        odd = nonzero(and_(extract(one, f.w - 2, 0), concat(const(1, f.eb), frac(f, x))
                           if f.eb + f.sb == f.w - 1 else m))
        # lsb of the integer part: bit nf of the significand (implicit bit when nf == sb)
        up = or_(ult(half, fr), and_(eq(half, fr), odd))
    mid = ite(up, add(tr, extract(one, f.w - 2, 0)), tr)
    onef = const(f.bias << f.sb, f.w - 1)
    z = const(0, f.w - 1)
    halff = const((f.bias - 1) << f.sb, f.w - 1)
    if mode == "trunc":
        sm = z
    elif mode == "floor":
        sm = ite(and_(s, nonzero(m)), onef, z)
    elif mode == "ceil":
        sm = ite(and_(not_(s), nonzero(m)), onef, z)
    elif mode == "away":
        sm = ite(ule(halff, m), onef, z)
    else:
        sm = ite(ult(halff, m), onef, z)
    r = concat(s, ite(big, m, ite(small, sm, mid)))
    return ite(is_nan(f, x), qnan(f), r)


# ---------------------------------------------------------------- concrete helpers

def decode(f, v):
    """python value of a bit pattern: ('nan',) ('inf', s) or (s, Fraction)"""
    from fractions import Fraction
    s = v >> (f.w - 1)
    e = v >> f.sb & ((1 << f.eb) - 1)
    m = v & ((1 << f.sb) - 1)
    if e == (1 << f.eb) - 1:
        return ("nan",) if m else ("inf", s)
    x = Fraction(m if e == 0 else m | 1 << f.sb) * Fraction(2) ** (max(e, 1) - f.bias - f.sb)
    return (s, -x if s else x)


def encode(f, s, x):
    """round an exact non-negative rational to the format (RNE) with sign s; independent of the term encoders"""
    from .llir import round_frac
    nm = {16: "half", 32: "float", 64: "double", 128: "fp128"}[f.w]
    return round_frac(x, nm, bool(s))


def c_nan(f):
    return (((1 << f.eb) - 1) << f.sb) | (1 << (f.sb - 1))


def same(f, a, b):
    """concrete equality up to NaN payload"""
    na, nb = decode(f, a)[0] == "nan", decode(f, b)[0] == "nan"
    return (na and nb) or (not na and not nb and a == b)


def same_t(f, a, b):
    """term: equal bits, or both NaN"""
    na, nb = is_nan(f, a), is_nan(f, b)
    return or_(and_(na, nb), and_(not_(or_(na, nb)), eq(a, b)))

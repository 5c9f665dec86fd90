"""Hash-consed bit-vector terms with light simplification.

Every term is a bit-vector; truth values are 1-bit vectors.  The library is the
single vocabulary shared by the IR executor, the reference specifications and
the solver back ends.
"""
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "args", "w", "val", "id")

    def __init__(self, op, args, w, val, id_):
        self.op = op
        self.args = args
        self.w = w
        self.val = val
        self.id = id_

    def __repr__(self):
        return show(self, 4)

    @property
    def is_const(self):
        return self.op == "const"


_table = {}
_n = [0]


def _mk(op, args, w, val=None):
    key = (op, w, val) + tuple(a.id for a in args)
    t = _table.get(key)
    if t is None:
        _n[0] += 1
        t = T(op, tuple(args), w, val, _n[0])
        _table[key] = t
    return t


def reset():
    _table.clear()
    for c in _memos:
        c.clear()
    global TRUE, FALSE
    TRUE = const(1, 1)
    FALSE = const(0, 1)


def mask(w):
    return (1 << w) - 1


_memos = []


def _memo2(fn):
    cache = {}
    _memos.append(cache)

    def g(a, b):
        k = (a.id, b.id)
        r = cache.get(k)
        if r is None:
            r = fn(a, b)
            cache[k] = r
        return r
    g.__name__ = fn.__name__
    return g


def _memo_extract(fn):
    cache = {}
    _memos.append(cache)

    def g(t, hi, lo):
        if hi - lo + 1 == t.w:
            return t
        k = (t.id, hi, lo)
        r = cache.get(k)
        if r is None:
            r = fn(t, hi, lo)
            cache[k] = r
        return r
    return g


def _memo1(fn):
    cache = {}
    _memos.append(cache)

    def g(a):
        r = cache.get(a.id)
        if r is None:
            r = fn(a)
            cache[a.id] = r
        return r
    return g


def const(v, w):
    assert w > 0
    return _mk("const", (), w, v & mask(w))


TRUE = const(1, 1)
FALSE = const(0, 1)


def var(name, w):
    return _mk("var", (), w, name)


_fresh = [0]


def fresh(prefix, w):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), w)


def uf(name, args, w):
    return _mk("uf", tuple(args), w, name)


def show(t, depth):
    if t.op == "const":
        return "%d'%x" % (t.w, t.val)
    if t.op == "var":
        return t.val
    if depth == 0:
        return "#%d" % t.id
    s = t.op
    if t.val is not None:
        s += str(t.val)
    return "(%s %s)" % (s, " ".join(show(a, depth - 1) for a in t.args))


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


# ---------------------------------------------------------------- structure

def segments(t):
    """t as a list of (term) most significant first, flattening concats."""
    if t.op == "concat":
        return list(t.args)
    return [t]


def concat(*parts):
    segs = []
    for p in parts:
        for s in segments(p):
            if segs:
                l = segs[-1]
                if l.op == "const" and s.op == "const":
                    segs[-1] = const(l.val << s.w | s.val, l.w + s.w)
                    continue
                if (l.op == "extract" and s.op == "extract" and l.args[0] is s.args[0]
                        and l.val[1] == s.val[0] + 1):
                    segs[-1] = extract(l.args[0], l.val[0], s.val[1])
                    continue
            segs.append(s)
    if len(segs) == 1:
        return segs[0]
    return _mk("concat", segs, sum(s.w for s in segs))


def _cheap_extract(t, hi, lo):
    """extracting this range from t gives a constant"""
    if t.op == "const":
        return True
    if t.op == "concat":
        top = t.w
        for s in t.args:
            b = top - s.w
            if b <= hi and top - 1 >= lo and s.op != "const":
                return False
            top = b
        return True
    return False


@_memo_extract
def extract(t, hi, lo):
    w = hi - lo + 1
    assert 0 <= lo <= hi < t.w, (t.w, hi, lo)
    if w == t.w:
        return t
    op = t.op
    if op == "const":
        return const(t.val >> lo, w)
    if op == "extract":
        return extract(t.args[0], t.val[1] + hi, t.val[1] + lo)
    if op == "concat":
        out = []
        top = t.w
        for s in t.args:
            b = top - s.w
            if b <= hi and top - 1 >= lo:
                out.append(extract(s, min(hi, top - 1) - b, max(lo, b) - b))
            top = b
        return concat(*out)
    if op == "sext":
        x = t.args[0]
        if hi < x.w:
            return extract(x, hi, lo)
        if lo >= x.w - 1:
            return sext(extract(x, x.w - 1, x.w - 1), w)
        if lo < x.w:
            return sext(extract(x, x.w - 1, lo), w)
    if op in ("and", "or", "xor"):
        return _bitop(op, extract(t.args[0], hi, lo), extract(t.args[1], hi, lo))
    if op == "not":
        return not_(extract(t.args[0], hi, lo))
    if op == "ite":
        a, b = t.args[1], t.args[2]
        if _cheap_extract(a, hi, lo) or _cheap_extract(b, hi, lo):
            return ite(t.args[0], extract(a, hi, lo), extract(b, hi, lo))
    if lo == 0 and op in ("add", "sub", "mul"):
        a, b = t.args
        if a.op in ("concat", "sext", "const") or b.op in ("concat", "sext", "const"):
            f = {"add": add, "sub": sub, "mul": mul}[op]
            return f(extract(a, hi, 0), extract(b, hi, 0))
    return _mk("extract", (t,), w, (hi, lo))


def zext(t, w):
    if w == t.w:
        return t
    assert w > t.w
    return concat(const(0, w - t.w), t)


def sext(t, w):
    if w == t.w:
        return t
    assert w > t.w
    if t.op == "const":
        return const(sx(t.val, t.w), w)
    if t.op == "sext":
        return sext(t.args[0], w)
    if t.op == "concat" and t.args[0].op == "const" and t.args[0].val >> (t.args[0].w - 1) == 0:
        return zext(t, w)
    return _mk("sext", (t,), w)


def trunc(t, w):
    return extract(t, w - 1, 0)


def resize(t, w):
    return trunc(t, w) if w < t.w else zext(t, w)


def bit(t, i):
    return extract(t, i, i)


# ---------------------------------------------------------------- booleans / bitwise

@_memo1
def not_(a):
    if a.op == "const":
        return const(~a.val, a.w)
    if a.op == "not":
        return a.args[0]
    if a.op == "concat" and any(s.op == "const" for s in a.args):
        return concat(*[not_(s) for s in a.args])
    if a.w == 1:
        if a.op == "or":
            return and_(not_(a.args[0]), not_(a.args[1]))
        if a.op == "ult":
            return _mk("ule", (a.args[1], a.args[0]), 1)
        if a.op == "ule":
            return _mk("ult", (a.args[1], a.args[0]), 1)
        if a.op == "slt":
            return _mk("sle", (a.args[1], a.args[0]), 1)
        if a.op == "sle":
            return _mk("slt", (a.args[1], a.args[0]), 1)
        if a.op == "ite" and (a.args[1].op in ("const", "not") or a.args[2].op in ("const", "not")):
            return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return _mk("not", (a,), a.w)


def _bitop(op, a, b):
    if op == "and":
        return and_(a, b)
    if op == "or":
        return or_(a, b)
    return xor(a, b)


def _split_align(op, a, b):
    """Distribute a bitwise op over concat structure when constants are involved."""
    ca, cb = segments(a), segments(b)
    if not (any(s.op == "const" for s in ca) or any(s.op == "const" for s in cb)):
        if len(ca) == 1 or len(cb) == 1:
            return None
    cuts = set()
    for segs in (ca, cb):
        p = 0
        for s in reversed(segs):
            p += s.w
            cuts.add(p)
    for segs in (ca, cb):
        p = 0
        for s in reversed(segs):
            if s.op == "const" and s.w > 1:
                # cut the constant at runs of equal bits
                v = s.val
                i = 0
                while i < s.w:
                    cur = v >> i & 1
                    j = i
                    if cur:
                        r = ~(v >> i)
                    else:
                        r = v >> i
                    if r == 0:
                        j = s.w
                    else:
                        j = i + ((r & -r).bit_length() - 1)
                        if j > s.w:
                            j = s.w
                    if j < s.w:
                        cuts.add(p + j)
                    i = j
            p += s.w
    cuts = sorted(cuts)
    if len(cuts) == 1:
        return None
    if len(cuts) > 24:
        return None
    out = []
    lo = 0
    for c in cuts:
        out.append(_bitop(op, extract(a, c - 1, lo), extract(b, c - 1, lo)))
        lo = c
    return concat(*reversed(out))


@_memo2
def and_(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a is b:
        return a
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if a.op == "const":
            return const(a.val & b.val, a.w)
        if b.val == 0:
            return b
        if b.val == mask(b.w):
            return a
    if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
        return const(0, a.w)
    if a.w > 1:
        r = _split_align("and", a, b)
        if r is not None:
            return r
    else:
        # absorption
        if b.op == "and" and (a is b.args[0] or a is b.args[1]):
            return b
        if a.op == "and" and (b is a.args[0] or b is a.args[1]):
            return a
        if b.op == "or" and (a is b.args[0] or a is b.args[1]):
            return a
        if a.op == "or" and (b is a.args[0] or b is a.args[1]):
            return b
        for x, y in ((a, b), (b, a)):
            if y.op == "or":
                n = not_(x)
                if y.args[0] is n:
                    return and_(x, y.args[1])
                if y.args[1] is n:
                    return and_(x, y.args[0])
            if y.op == "and":
                n = not_(x)
                if y.args[0] is n or y.args[1] is n:
                    return FALSE
        if contradict(a, b):
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("and", (a, b), a.w)


def contradict(a, b):
    """cheap syntactic disjointness of two truth values: (x==c1) & (x==c2)"""
    if a.op == "eq" and b.op == "eq":
        if a.args[0] is b.args[0] and a.args[1].op == "const" and b.args[1].op == "const":
            return a.args[1].val != b.args[1].val
    return not_(a) is b


@_memo2
def or_(a, b):
    assert a.w == b.w
    if a is b:
        return a
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if a.op == "const":
            return const(a.val | b.val, a.w)
        if b.val == 0:
            return a
        if b.val == mask(b.w):
            return b
    if a.op == "not" and a.args[0] is b or b.op == "not" and b.args[0] is a:
        return const(-1, a.w)
    if a.w > 1:
        r = _split_align("or", a, b)
        if r is not None:
            return r
    else:
        if not_(a) is b or not_(b) is a:
            return TRUE
        if b.op == "or" and (a is b.args[0] or a is b.args[1]):
            return b
        if a.op == "or" and (b is a.args[0] or b is a.args[1]):
            return a
        if b.op == "and" and (a is b.args[0] or a is b.args[1]):
            return a
        if a.op == "and" and (b is a.args[0] or b is a.args[1]):
            return b
        # (p & c) | (p & !c) = p ;  (p & c) | !c = p | !c
        if a.op == "and" and b.op == "and":
            for i in (0, 1):
                for j in (0, 1):
                    if a.args[i] is b.args[j]:
                        x, y = a.args[1 - i], b.args[1 - j]
                        if not_(x) is y:
                            return a.args[i]
        for x, y in ((a, b), (b, a)):
            if y.op == "and":
                n = not_(x)
                if y.args[0] is n:
                    return or_(x, y.args[1])
                if y.args[1] is n:
                    return or_(x, y.args[0])
    if a.id > b.id:
        a, b = b, a
    return _mk("or", (a, b), a.w)


@_memo2
def xor(a, b):
    assert a.w == b.w
    if a is b:
        return const(0, a.w)
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if a.op == "const":
            return const(a.val ^ b.val, a.w)
        if b.val == 0:
            return a
        if b.val == mask(b.w):
            return not_(a)
    if a.w > 1:
        r = _split_align("xor", a, b)
        if r is not None:
            return r
    if a.op == "xor":
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
    if b.op == "xor":
        if b.args[0] is a:
            return b.args[1]
        if b.args[1] is a:
            return b.args[0]
    if a.op == "not" and b.op == "not":
        return xor(a.args[0], b.args[0])
    if a.op == "not":
        return not_(xor(a.args[0], b))
    if b.op == "not":
        return not_(xor(a, b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return _mk("xor", (a, b), a.w)


def ands(xs):
    r = TRUE
    for x in xs:
        r = and_(r, x)
    return r


def ors(xs):
    r = FALSE
    for x in xs:
        r = or_(r, x)
    return r


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    assert c.w == 1 and a.w == b.w, (c.w, a.w, b.w)
    if c.op == "const":
        return a if c.val else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.w == 1:
        if a.op == "const":
            return or_(c, b) if a.val else and_(not_(c), b)
        if b.op == "const":
            return or_(not_(c), a) if b.val else and_(c, a)
        if a is c:
            return or_(c, b)
        if b is c:
            return and_(c, a)
        if not_(a) is b:
            return not_(xor(c, a))
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    if a.op == "ite":
        # ite(c, ite(d, x, b), b)
        if a.args[2] is b:
            return ite(and_(c, a.args[0]), a.args[1], b)
        if a.args[1] is b:
            return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == "ite":
        if b.args[1] is a:
            return ite(or_(c, b.args[0]), a, b.args[2])
        if b.args[2] is a:
            return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if a.op == "concat" and b.op == "concat":
        # share common outer segments
        sa, sb = a.args, b.args
        if sa[0] is sb[0]:
            w = sa[0].w
            return concat(sa[0], ite(c, extract(a, a.w - w - 1, 0), extract(b, a.w - w - 1, 0)))
        if sa[-1] is sb[-1]:
            w = sa[-1].w
            return concat(ite(c, extract(a, a.w - 1, w), extract(b, a.w - 1, w)), sa[-1])
    if a.op == "concat" and b.op in ("const", "concat") or b.op == "concat" and a.op == "const":
        # share leading/trailing constant bits (keeps zero-extensions visible)
        za, zb = _lead_const(a), _lead_const(b)
        k = min(za[0], zb[0])
        if k:
            va, vb = za[1] >> (za[0] - k), zb[1] >> (zb[0] - k)
            x = va ^ vb
            k2 = k - x.bit_length()
            if k2 > 0:
                return concat(const(va >> (k - k2), k2),
                              ite(c, extract(a, a.w - k2 - 1, 0), extract(b, a.w - k2 - 1, 0)))
    return _mk("ite", (c, a, b), a.w)


def _lead_const(t):
    if t.op == "const":
        return t.w, t.val
    s = t.args[0]
    if t.op == "concat" and s.op == "const":
        return s.w, s.val
    return 0, 0


# ---------------------------------------------------------------- arithmetic

@_memo2
def add(a, b):
    assert a.w == b.w
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if a.op == "const":
            return const(a.val + b.val, a.w)
        if b.val == 0:
            return a
        if a.op == "add" and a.args[1].op == "const":
            return add(a.args[0], const(a.args[1].val + b.val, a.w))
        if a.op == "sub" and a.args[0].op == "const":
            return sub(const(a.args[0].val + b.val, a.w), a.args[1])
        if a.op == "not":  # ~x + c = (c-1) - x
            return sub(const(b.val - 1, a.w), a.args[0])
        if a.op == "ite" and a.args[1].op == "const" and a.args[2].op == "const":
            return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
        # trailing zero bits of the constant do not interact
        tz = (b.val & -b.val).bit_length() - 1
        if tz and a.op == "concat" and a.args[-1].w <= tz:
            lw = a.args[-1].w
            return concat(add(extract(a, a.w - 1, lw), const(b.val >> lw, a.w - lw)), a.args[-1])
        k = sigw(a)
        if k < a.w - 1:
            kb = b.val.bit_length()
            if kb < a.w - 1:
                k = max(k, kb) + 1
                if k < a.w:
                    return zext(add(trunc(a, k), trunc(b, k)), a.w)
            else:
                kb = ((1 << a.w) - b.val).bit_length()
                k = max(k, kb) + 1
                if k < a.w:
                    return sext(_mk("add", (trunc(a, k), trunc(b, k)), k), a.w)
        return _mk("add", (a, b), a.w)
    if a.op == "sub" and a.args[1] is b:
        return a.args[0]
    if b.op == "sub" and b.args[1] is a:
        return b.args[0]
    if a.op == "add" and a.args[1].op == "const":
        return add(add(a.args[0], b), a.args[1])
    if b.op == "add" and b.args[1].op == "const":
        return add(add(a, b.args[0]), b.args[1])
    # disjoint low parts
    if a.op == "concat" and b.op == "concat":
        la, lb = a.args[-1], b.args[-1]
        if la.op == "const" and la.val == 0 and lb.w <= la.w:
            w = lb.w
            return concat(add(extract(a, a.w - 1, w), extract(b, a.w - 1, w)), lb)
        if lb.op == "const" and lb.val == 0 and la.w <= lb.w:
            w = la.w
            return concat(add(extract(a, a.w - 1, w), extract(b, a.w - 1, w)), la)
    k = max(sigw(a), sigw(b)) + 1
    if k < a.w:
        return zext(add(trunc(a, k), trunc(b, k)), a.w)
    if a.id > b.id:
        a, b = b, a
    return _mk("add", (a, b), a.w)


@_memo2
def sub(a, b):
    assert a.w == b.w
    if a is b:
        return const(0, a.w)
    if b.op == "const":
        return add(a, const(-b.val, a.w))
    if a.op == "const" and a.val == mask(a.w):
        return not_(b)
    if a.op == "const" and b.op == "add" and b.args[1].op == "const":
        return sub(const(a.val - b.args[1].val, a.w), b.args[0])
    if a.op == "const" and b.op == "sub" and b.args[0].op == "const":
        return add(b.args[1], const(a.val - b.args[0].val, a.w))
    if a.op == "add":
        if a.args[0] is b:
            return a.args[1]
        if a.args[1] is b:
            return a.args[0]
        if a.args[1].op == "const":
            return add(sub(a.args[0], b), a.args[1])
    if b.op == "add" and b.args[1].op == "const":
        return add(sub(a, b.args[0]), const(-b.args[1].val, a.w))
    k = max(sigw(a), sigw(b)) + 1
    if k < a.w:
        return sext(sub(trunc(a, k), trunc(b, k)), a.w)
    return _mk("sub", (a, b), a.w)


def neg(a):
    return sub(const(0, a.w), a)


def mul(a, b):
    assert a.w == b.w
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if a.op == "const":
            return const(a.val * b.val, a.w)
        if b.val == 0:
            return b
        if b.val == 1:
            return a
        if b.val == mask(b.w):
            return neg(a)
        if b.val & (b.val - 1) == 0:
            return shl_c(a, b.val.bit_length() - 1)
    # trailing zeros of either operand are wiring
    for x, y in ((a, b), (b, a)):
        if x.op == "concat" and x.args[-1].op == "const" and x.args[-1].val == 0:
            k = x.args[-1].w
            return concat(mul(extract(x, x.w - 1, k), extract(y, y.w - k - 1, 0)), const(0, k))
        if x.op == "const" and x.val & 1 == 0:
            k = (x.val & -x.val).bit_length() - 1
            return concat(mul(const(x.val >> k, x.w - k), extract(y, y.w - k - 1, 0)), const(0, k))
    # drop leading zeros that cannot reach the result
    wa, wb = sigw(a), sigw(b)
    if wa + wb < a.w:
        k = max(wa + wb, 1)
        return zext(mul(extract(a, k - 1, 0), extract(b, k - 1, 0)), a.w)
    if a.id > b.id:
        a, b = b, a
    return _mk("mul", (a, b), a.w)


def sigw(t):
    """upper bound on the number of significant (non leading zero) bits"""
    if t.op == "const":
        return t.val.bit_length()
    if t.op == "concat" and t.args[0].op == "const":
        s = t.args[0]
        return t.w - s.w + s.val.bit_length()
    return t.w


def udiv(a, b):
    if b.op == "const" and b.val:
        if a.op == "const":
            return const(a.val // b.val, a.w)
        if b.val & (b.val - 1) == 0:
            return lshr_c(a, b.val.bit_length() - 1)
    k = max(sigw(a), sigw(b), 1)
    if k < a.w and not (b.op == "const" and b.val == 0):
        if not (b.op == "const" or b.op == "concat" and any(x.op == "const" and x.val for x in b.args)):
            # division by zero yields all ones at full width; keep full width unless nonzero is known
            return _mk("udiv", (a, b), a.w)
        return zext(udiv(extract(a, k - 1, 0), extract(b, k - 1, 0)), a.w)
    return _mk("udiv", (a, b), a.w)


def urem(a, b):
    if b.op == "const" and b.val:
        if a.op == "const":
            return const(a.val % b.val, a.w)
        if b.val & (b.val - 1) == 0:
            k = b.val.bit_length() - 1
            return zext(extract(a, k - 1, 0), a.w) if k else const(0, a.w)
    k = max(sigw(a), sigw(b), 1)
    if k < a.w:
        return zext(urem(extract(a, k - 1, 0), extract(b, k - 1, 0)), a.w)
    return _mk("urem", (a, b), a.w)


def sdiv(a, b):
    return _fold2("sdiv", a, b)


def srem(a, b):
    return _fold2("srem", a, b)


def _fold2(op, a, b):
    t = _mk(op, (a, b), a.w)
    if a.op == "const" and b.op == "const":
        return const(_apply(t, [a.val, b.val]), a.w)
    return t


def shl_c(a, k):
    if k == 0:
        return a
    if k >= a.w:
        return const(0, a.w)
    return concat(extract(a, a.w - k - 1, 0), const(0, k))


def lshr_c(a, k):
    if k == 0:
        return a
    if k >= a.w:
        return const(0, a.w)
    return concat(const(0, k), extract(a, a.w - 1, k))


def ashr_c(a, k):
    if k == 0:
        return a
    k = min(k, a.w - 1)
    return sext(extract(a, a.w - 1, k), a.w)


def shl(a, b):
    """a << b; zero when b >= width (SMT-LIB meaning)"""
    if b.op == "const":
        return shl_c(a, b.val)
    if a.op == "const" and a.val == 0:
        return a
    if b.op == "ite" and b.args[1].op == "const" and b.args[2].op == "const":
        return ite(b.args[0], shl(a, b.args[1]), shl(a, b.args[2]))
    return _mk("shl", (a, b), a.w)


def lshr(a, b):
    if b.op == "const":
        return lshr_c(a, b.val)
    if a.op == "const" and a.val == 0:
        return a
    if b.op == "ite" and b.args[1].op == "const" and b.args[2].op == "const":
        return ite(b.args[0], lshr(a, b.args[1]), lshr(a, b.args[2]))
    return _mk("lshr", (a, b), a.w)


def ashr(a, b):
    if b.op == "const":
        return ashr_c(a, b.val)
    if a.op == "concat" and a.args[0].op == "const" and a.args[0].val >> (a.args[0].w - 1) == 0:
        return lshr(a, b)
    if b.op == "ite" and b.args[1].op == "const" and b.args[2].op == "const":
        return ite(b.args[0], ashr(a, b.args[1]), ashr(a, b.args[2]))
    return _mk("ashr", (a, b), a.w)


# ---------------------------------------------------------------- comparisons

@_memo2
def eq(a, b):
    assert a.w == b.w, (a.w, b.w)
    if a is b:
        return TRUE
    if a.op == "const":
        a, b = b, a
    if b.op == "const":
        if a.op == "const":
            return TRUE if a.val == b.val else FALSE
        if a.w == 1:
            return a if b.val else not_(a)
        if a.op == "concat":
            r = TRUE
            lo = 0
            for s in reversed(a.args):
                r = and_(r, eq(s, const(b.val >> lo, s.w)))
                lo += s.w
            return r
        if a.op == "not":
            return eq(a.args[0], const(~b.val, a.w))
        if a.op == "add" and a.args[1].op == "const":
            return eq(a.args[0], const(b.val - a.args[1].val, a.w))
        if a.op == "sub" and a.args[0].op == "const":
            return eq(a.args[1], const(a.args[0].val - b.val, a.w))
        if a.op == "sub" and b.val == 0:
            return eq(a.args[0], a.args[1])
        if a.op == "xor" and a.args[1].op == "const":
            return eq(a.args[0], const(a.args[1].val ^ b.val, a.w))
        if a.op == "xor" and b.val == 0:
            return eq(a.args[0], a.args[1])
        if a.op == "or" and b.val == 0:
            return and_(eq(a.args[0], b), eq(a.args[1], b))
        if a.op == "sext":
            x = a.args[0]
            if sx(b.val & mask(x.w), x.w) & mask(a.w) == b.val:
                return eq(x, const(b.val, x.w))
            return FALSE
        if a.op == "ite":
            x, y = a.args[1], a.args[2]
            if x.op == "const" or y.op == "const" or x.op == "concat" or y.op == "concat":
                return ite(a.args[0], eq(x, b), eq(y, b))
        return _mk("eq", (a, b), 1)
    if a.op == "concat" or b.op == "concat":
        # split on a common boundary if there is one
        ca, cb = segments(a), segments(b)
        pa, pb = set(), set()
        for segs, ps in ((ca, pa), (cb, pb)):
            p = 0
            for s in reversed(segs):
                p += s.w
                ps.add(p)
        cuts = (pa & pb) - {a.w}
        if not cuts:
            for x, px in ((ca, pa), (cb, pb)):
                if len(x) > 1 and any(s.op == "const" for s in x):
                    cuts = px - {a.w}
                    break
        if cuts:
            c = max(cuts)
            return and_(eq(extract(a, a.w - 1, c), extract(b, a.w - 1, c)),
                        eq(extract(a, c - 1, 0), extract(b, c - 1, 0)))
    if a.w == 1:
        return not_(xor(a, b))
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
    if a.op == "ite" and (a.args[1] is b or a.args[2] is b):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite" and (b.args[1] is a or b.args[2] is a):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == "add" and b.op == "add":
        for i in (0, 1):
            for j in (0, 1):
                if a.args[i] is b.args[j]:
                    return eq(a.args[1 - i], b.args[1 - j])
    if a.id > b.id:
        a, b = b, a
    return _mk("eq", (a, b), 1)


def ne(a, b):
    return not_(eq(a, b))


@_memo2
def ult(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    if a.op == "const" and b.op == "const":
        return TRUE if a.val < b.val else FALSE
    if b.op == "const":
        if b.val == 0:
            return FALSE
        if b.val == 1:
            return eq(a, const(0, a.w))
        if b.val & (b.val - 1) == 0:
            k = b.val.bit_length() - 1
            return eq(extract(a, a.w - 1, k), const(0, a.w - k))
        if sigw(a) < b.val.bit_length():
            return TRUE
    if a.op == "const":
        if a.val == mask(a.w):
            return FALSE
        if a.val == 0:
            return ne(b, a)
        if a.val & (a.val + 1) == 0:
            k = a.val.bit_length()
            return ne(extract(b, b.w - 1, k), const(0, b.w - k))
        if sigw(b) < a.val.bit_length():
            return FALSE
    k = max(sigw(a), sigw(b))
    if 0 < k < a.w:
        return ult(extract(a, k - 1, 0), extract(b, k - 1, 0))
    if a.w == 1:
        return and_(not_(a), b)
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if x.op == "ite" and y.op == "const" and (x.args[1].op == "const" or x.args[2].op == "const"):
            if f == 0:
                return ite(x.args[0], ult(x.args[1], y), ult(x.args[2], y))
            return ite(x.args[0], ult(y, x.args[1]), ult(y, x.args[2]))
    for x, y, f in ((a, b, 0), (b, a, 1)):
        # a constant leading part decides unless it equals that of the other constant
        if x.op == "concat" and x.args[0].op == "const" and y.op == "const":
            h, k = x.args[0].val, x.w - x.args[0].w
            if h == y.val >> k:
                l = extract(x, k - 1, 0)
                c = const(y.val & mask(k), k)
                return ult(c, l) if f else ult(l, c)
            return TRUE if (h < y.val >> k) != bool(f) else FALSE
    if a.op == "concat" and b.op == "concat":
        if a.args[0] is b.args[0]:
            k = a.w - a.args[0].w
            return ult(extract(a, k - 1, 0), extract(b, k - 1, 0))
        if a.args[-1] is b.args[-1]:
            k = a.args[-1].w
            return ult(extract(a, a.w - 1, k), extract(b, a.w - 1, k))
    return _mk("ult", (a, b), 1)


def ule(a, b):
    return not_(ult(b, a))


def ugt(a, b):
    return ult(b, a)


def uge(a, b):
    return not_(ult(a, b))


def _signbit_const(t):
    if t.op == "const":
        return t.val >> (t.w - 1)
    if t.op == "concat" and t.args[0].op == "const":
        return t.args[0].val >> (t.args[0].w - 1)
    return None


@_memo2
def slt(a, b):
    assert a.w == b.w
    if a is b:
        return FALSE
    sa, sb = _signbit_const(a), _signbit_const(b)
    if sa is not None and sb is not None:
        if sa == sb:
            return ult(a, b)
        return TRUE if sa else FALSE
    if b.op == "const" and b.val == 0:
        return extract(a, a.w - 1, a.w - 1)
    if a.op == "const" and a.val == mask(a.w):
        return not_(extract(b, b.w - 1, b.w - 1))
    if a.op == "const" and a.val == mask(a.w) >> 1:
        return FALSE
    if b.op == "const" and b.val == 1 << (b.w - 1):
        return FALSE
    if a.op == "sext" and b.op == "sext" and a.args[0].w == b.args[0].w:
        return slt(a.args[0], b.args[0])
    for x, y, f in ((a, b, 0), (b, a, 1)):
        if x.op == "ite" and y.op == "const" and (x.args[1].op == "const" or x.args[2].op == "const"):
            if f == 0:
                return ite(x.args[0], slt(x.args[1], y), slt(x.args[2], y))
            return ite(x.args[0], slt(y, x.args[1]), slt(y, x.args[2]))
        if x.op == "sext" and y.op == "const":
            n = x.args[0]
            v = sx(y.val, y.w)
            if -(1 << (n.w - 1)) <= v < (1 << (n.w - 1)):
                c = const(v, n.w)
                return slt(n, c) if f == 0 else slt(c, n)
    return _mk("slt", (a, b), 1)


def sle(a, b):
    return not_(slt(b, a))


def sgt(a, b):
    return slt(b, a)


def sge(a, b):
    return not_(slt(a, b))


# ---------------------------------------------------------------- evaluation

def _apply(t, v):
    op = t.op
    w = t.w
    m = mask(w)
    if op == "and":
        return v[0] & v[1]
    if op == "or":
        return v[0] | v[1]
    if op == "xor":
        return v[0] ^ v[1]
    if op == "not":
        return ~v[0] & m
    if op == "ite":
        return v[1] if v[0] else v[2]
    if op == "add":
        return (v[0] + v[1]) & m
    if op == "sub":
        return (v[0] - v[1]) & m
    if op == "mul":
        return (v[0] * v[1]) & m
    if op == "eq":
        return int(v[0] == v[1])
    if op == "ult":
        return int(v[0] < v[1])
    if op == "ule":
        return int(v[0] <= v[1])
    aw = t.args[0].w
    if op == "slt":
        return int(sx(v[0], aw) < sx(v[1], aw))
    if op == "sle":
        return int(sx(v[0], aw) <= sx(v[1], aw))
    if op == "extract":
        return (v[0] >> t.val[1]) & m
    if op == "concat":
        r = 0
        for a, x in zip(t.args, v):
            r = r << a.w | x
        return r
    if op == "sext":
        return sx(v[0], aw) & m
    if op == "shl":
        return (v[0] << v[1]) & m if v[1] < w else 0
    if op == "lshr":
        return v[0] >> v[1] if v[1] < w else 0
    if op == "ashr":
        return (sx(v[0], w) >> min(v[1], w)) & m
    if op == "udiv":
        return v[0] // v[1] if v[1] else m
    if op == "urem":
        return v[0] % v[1] if v[1] else v[0]
    if op == "sdiv":
        a, b = sx(v[0], w), sx(v[1], w)
        if b == 0:
            return 1 if a < 0 else m
        q = abs(a) // abs(b)
        return (-q if (a < 0) != (b < 0) else q) & m
    if op == "srem":
        a, b = sx(v[0], w), sx(v[1], w)
        if b == 0:
            return v[0]
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & m
    raise ValueError(op)


def topo(roots):
    """all nodes reachable from roots, children first"""
    seen = set()
    out = []
    stack = [(r, False) for r in reversed(roots)]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for a in t.args:
            if a.id not in seen:
                stack.append((a, False))
    return out


def evaluate(roots, env, ufs=None, default=0, cache=None):
    """concrete evaluation; env maps variable name -> int"""
    val = {} if cache is None else cache
    for t in topo(roots):
        if t.id in val:
            continue
        if t.op == "const":
            val[t.id] = t.val
        elif t.op == "var":
            val[t.id] = env.get(t.val, default) & mask(t.w)
        elif t.op == "uf":
            val[t.id] = ufs(t.val, [val[a.id] for a in t.args], t) & mask(t.w)
        else:
            val[t.id] = _apply(t, [val[a.id] for a in t.args])
    return [val[r.id] for r in roots]


def variables(roots):
    return [t for t in topo(roots) if t.op == "var"]


def size(roots):
    return len(topo(roots))


_rebuild = None


def substitute(roots, mapping):
    """mapping: term id -> term. Rebuilds with simplification."""
    memo = {}
    for t in topo(roots):
        if t.id in mapping:
            memo[t.id] = mapping[t.id]
            continue
        if not t.args:
            memo[t.id] = t
            continue
        args = [memo[a.id] for a in t.args]
        if all(x is y for x, y in zip(args, t.args)):
            memo[t.id] = t
        else:
            memo[t.id] = build(t, args)
    return [memo[r.id] for r in roots]


def build(t, args):
    op = t.op
    f = _BUILD.get(op)
    if f:
        return f(*args)
    if op == "extract":
        return extract(args[0], *t.val)
    if op == "sext":
        return sext(args[0], t.w)
    if op == "uf":
        return uf(t.val, args, t.w)
    raise ValueError(op)


_BUILD = dict(and_=and_, or_=or_, xor=xor, ite=ite, add=add, sub=sub, mul=mul, udiv=udiv, urem=urem,
              sdiv=sdiv, srem=srem, shl=shl, lshr=lshr, ashr=ashr, eq=eq, ult=ult, ule=ule, slt=slt,
              sle=sle, concat=concat)
_BUILD["and"] = and_
_BUILD["or"] = or_
_BUILD["not"] = not_


# ---------------------------------------------------------------- derived

def _clz_tree(x):
    """(count of leading zeros of x, on log2(width)+1 bits) for a power-of-two width"""
    if x.w == 1:
        return not_(x)
    h = x.w // 2
    hi, lo = _clz_tree(extract(x, x.w - 1, h)), _clz_tree(extract(x, h - 1, 0))
    k = hi.w - 1
    hz, lz = bit(hi, k), bit(lo, k)     # half is zero
    allz = and_(hz, lz)
    if k == 0:
        return concat(allz, and_(hz, not_(lz)))
    low = ite(hz, extract(lo, k - 1, 0), extract(hi, k - 1, 0))
    return concat(allz, and_(hz, not_(lz)), ite(allz, const(0, k), low))


def clz(x, w=None):
    """count of leading zeros as a w-bit value (w defaults to x's width); x==0 gives x.w"""
    w = w or x.w
    n = 1
    while n < x.w:
        n *= 2
    if n != x.w:
        # a one bit right below x stops the count at x.w
        x = concat(x, const(1, 1), const(0, n - x.w - 1)) if n - x.w > 1 else concat(x, const(1, 1))
    return resize(_clz_tree(x), w)


def reverse_bits(x):
    return concat(*[bit(x, i) for i in range(x.w)])


def ctz(x, w=None):
    return clz(reverse_bits(x), w)


def popcount(x, w=None):
    w = w or x.w
    r = const(0, w)
    for i in range(x.w):
        r = add(r, zext(bit(x, i), w) if w > 1 else bit(x, i))
    return r


def is_zero(x):
    return eq(x, const(0, x.w))


def nonzero(x):
    return ne(x, const(0, x.w))


def umin(a, b):
    return ite(ult(a, b), a, b)


def umax(a, b):
    return ite(ult(a, b), b, a)

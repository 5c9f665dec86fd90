"""Abstraction of multiplications: each product becomes a variable constrained by facts that hold for every product.

An unsatisfiable abstraction shows the original query unsatisfiable; a satisfiable one says nothing."""
from . import terms as t


def const_bounds(x):
    """(lo, hi) from constant leading bits"""
    lo = hi = 0
    for s in t.segments(x):
        if s.op == "const":
            lo = lo << s.w | s.val
            hi = hi << s.w | s.val
        else:
            lo = lo << s.w
            hi = hi << s.w | t.mask(s.w)
    return lo, hi


class Abs:
    def __init__(self, limb=None, low=0, extra=True):
        self.limb = limb
        self.low = low
        self.extra = extra
        self.prod = {}
        self.ax = []

    def product(self, x, y):
        """variable for the full product of x and y (width x.w + y.w)"""
        if x.op == "const" or y.op == "const":
            w = x.w + y.w
            return t.mul(t.zext(x, w), t.zext(y, w))
        if x.id > y.id:
            x, y = y, x
        k = (x.id, y.id)
        p = self.prod.get(k)
        if p is None:
            w = x.w + y.w
            p = t.var("prod!%d!%d" % k, w)
            self.prod[k] = p
            xl, xh = const_bounds(x)
            yl, yh = const_bounds(y)
            self.ax.append(t.ule(p, t.const(xh * yh, w)))
            if xl * yl:
                self.ax.append(t.uge(p, t.const(xl * yl, w)))
            if self.extra:
                xz, yz = t.is_zero(x), t.is_zero(y)
                self.ax.append(t.eq(t.or_(xz, yz), t.is_zero(p)))
                self.ax.append(t.or_(yz, t.ule(t.zext(x, w), p)))
                self.ax.append(t.or_(xz, t.ule(t.zext(y, w), p)))
                self.ax.append(t.or_(t.ne(y, t.const(1, y.w)), t.eq(p, t.zext(x, w))))
                self.ax.append(t.or_(t.ne(x, t.const(1, x.w)), t.eq(p, t.zext(y, w))))
            if self.low:
                k2 = min(self.low, x.w, y.w)
                self.ax.append(t.eq(t.trunc(p, k2), t.mul(t.trunc(x, k2), t.trunc(y, k2))))
        return p

    def mul(self, x, y, w):
        """abstract x*y modulo 2^w"""
        wx, wy = max(t.sigw(x), 1), max(t.sigw(y), 1)
        x, y = t.trunc(x, wx), t.trunc(y, wy)
        L = self.limb
        if L is None:
            # trailing zeros of the factors are trailing zeros of the product
            k = 0
            ops = []
            for v in (x, y):
                z = 0
                for g in reversed(t.segments(v)):
                    if g.op != "const" or g.val:
                        break
                    z += g.w
                z = min(z, v.w - 1)
                k += z
                ops.append(t.extract(v, v.w - 1, z))
            if k:
                p = self.product(*ops)
                return t.resize(t.shl_c(t.zext(p, p.w + k), k), w)
        if L is None or (wx <= L and wy <= L):
            return t.resize(self.product(x, y), w)
        xs = [t.extract(x, min(i + L, wx) - 1, i) for i in range(0, wx, L)]
        ys = [t.extract(y, min(i + L, wy) - 1, i) for i in range(0, wy, L)]
        r = t.const(0, w)
        for i, a in enumerate(xs):
            for j, b in enumerate(ys):
                sh = L * (i + j)
                if sh >= w:
                    continue
                a2, b2 = t.zext(a, L), t.zext(b, L)
                p = t.resize(self.product(a2, b2), w)
                r = t.add(r, t.shl_c(p, sh))
        return r

    def low_part(self, n, wide):
        """full-width product of which n is the low part"""
        for b in wide:
            if b.w <= n.w:
                break
            for x, y in ((0, 1), (1, 0)):
                if t.trunc(b.args[x], n.w) is n.args[0] and t.trunc(b.args[y], n.w) is n.args[1]:
                    return b
        return None

    def apply(self, roots):
        memo = {}
        nodes = t.topo(roots)
        wide = sorted((n for n in nodes if n.op == "mul" and not any(a.is_const for a in n.args)), key=lambda n: -n.w)
        wide = [n for n in wide if not any(m.op == "mul" for m in t.topo(list(n.args)))] if self.limb is None else []
        for n in nodes:
            if not n.args:
                memo[n.id] = n
                continue
            args = [memo[a.id] for a in n.args]
            if n.op == "mul" and not args[0].is_const and not args[1].is_const:
                b = self.low_part(n, wide)
                memo[n.id] = t.trunc(self.mul(b.args[0], b.args[1], b.w), n.w) if b else self.mul(args[0], args[1], n.w)
            elif all(x is y for x, y in zip(args, n.args)):
                memo[n.id] = n
            else:
                memo[n.id] = t.build(n, args)
        return [memo[r.id] for r in roots]


def abstract(q, limb=None, low=0, extra=True):
    a = Abs(limb, low, extra)
    q2 = a.apply([q])[0]
    return t.ands([q2] + a.ax)

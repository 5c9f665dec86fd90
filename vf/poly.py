"""Bit-vector terms as integer polynomials.

Every term is given an integer polynomial over atoms that equals its unsigned value.  Additions, subtractions and
products that may wrap contribute an explicit carry, borrow or high-part atom, and a slice of a computed value is
expressed through the value and its higher slices, so the polynomial is exact in all cases.  Two terms of width w
agree for all inputs when their difference has only coefficients divisible by 2^w; the identity found is handed to
an SMT solver over the integers for confirmation."""
import subprocess
from . import terms as t


class P:
    def __init__(self, m=None):
        self.m = m or {}

    def __add__(self, o):
        r = dict(self.m)
        for k, v in o.m.items():
            x = r.get(k, 0) + v
            if x:
                r[k] = x
            else:
                r.pop(k, None)
        return P(r)

    def scale(self, c):
        return P({k: v * c for k, v in self.m.items()}) if c else P()

    def __sub__(self, o):
        return self + o.scale(-1)

    def mul(self, o, boolean):
        r = {}
        for a, x in self.m.items():
            for b, y in o.m.items():
                k = []
                for z in sorted(a + b):
                    if k and k[-1] == z and z in boolean:
                        continue
                    k.append(z)
                k = tuple(k)
                v = r.get(k, 0) + x * y
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return P(r)


class Norm:
    def __init__(self, roots, limit=20000):
        self.memo = {}
        self.cuts = {}
        self.rng = {}          # atom -> max value
        self.boolean = set()
        self.limit = limit
        for n in t.topo(roots):
            if n.op == "extract":
                c = self.cuts.setdefault(n.args[0].id, {0, n.args[0].w})
                c.add(n.val[1])
                c.add(n.val[0] + 1)
        self.nodes = {n.id: n for n in t.topo(roots)}

    def atom(self, key, w):
        if key not in self.rng:
            self.rng[key] = t.mask(w)
            if w == 1:
                self.boolean.add(key)
        return P({(key,): 1})

    def maxv(self, p):
        hi = 0
        for k, v in p.m.items():
            if v > 0:
                x = v
                for a in k:
                    x *= self.rng[a]
                hi += x
        return hi

    def minv(self, p):
        lo = 0
        for k, v in p.m.items():
            if v < 0:
                x = v
                for a in k:
                    x *= self.rng[a]
                lo += x
        return lo + p.m.get((), 0) if p.m.get((), 0) > 0 else lo

    def exact(self, n):
        r = self.memo.get(n.id)
        if r is None:
            for m in t.topo([n]):
                if m.id not in self.memo:
                    p = self._exact(m)
                    if len(p.m) > self.limit:
                        p = self.atom("t%d" % m.id, m.w)
                    self.memo[m.id] = p
            r = self.memo[n.id]
        return r

    def slices(self, n):
        """slice atoms of n above the lowest one: list of (lo, hi, key)"""
        cs = sorted(self.cuts.get(n.id, {0, n.w}))
        return [(a, b - 1, "t%d[%d:%d]" % (n.id, b - 1, a)) for a, b in zip(cs, cs[1:])]

    def _exact(self, n):
        op, w = n.op, n.w
        M = self.memo
        one = P({(): 1})
        if op == "const":
            return P({(): n.val}) if n.val else P()
        if op == "var":
            r = P()
            for lo, hi, k in self.slices(n):
                r = r + self.atom(k, hi - lo + 1).scale(1 << lo)
            return r
        if op == "concat":
            r = P()
            off = w
            for s in n.args:
                off -= s.w
                r = r + M[s.id].scale(1 << off)
            return r
        if op == "extract":
            return self.slice(n.args[0], n.val[0], n.val[1])
        if op == "not":
            return P({(): t.mask(w)}) - M[n.args[0].id]
        a = M[n.args[0].id] if n.args else None
        b = M[n.args[1].id] if len(n.args) > 1 else None
        if op == "add":
            p = a + b
            if self.maxv(p) >> w == 0 and self.minv(p) >= 0:
                return p
            x, y = n.args
            if y.op == "const" and y.val >> (w - 1):
                # adding a negative constant: x - c, borrow when x < c
                c = (1 << w) - y.val
                bo = self.borrow(x, t.const(c, w))
                return a - P({(): c}) + bo.scale(1 << w)
            return p - self.atom("c%d" % n.id, 1).scale(1 << w)
        if op == "sub":
            return a - b + self.borrow(n.args[0], n.args[1]).scale(1 << w)
        if op == "mul":
            p = a.mul(b, self.boolean)
            if self.maxv(p) >> w == 0 and self.minv(p) >= 0:
                return p
            return p - self.atom("h%d" % n.id, w).scale(1 << w)
        if op == "ult":
            return self.lt(n.args[0], n.args[1])
        if op == "ite" and (len(a.m) < 8):
            c = M[n.args[2].id]
            return c + a.mul(b - c, self.boolean)
        if w == 1:
            if op == "and":
                return a.mul(b, self.boolean)
            if op == "or":
                return a + b - a.mul(b, self.boolean)
            if op == "xor":
                return a + b - a.mul(b, self.boolean).scale(2)
        if op == "sext":
            x = n.args[0]
            top = self.slice(x, x.w - 1, x.w - 1) if x.w > 1 else a
            return a + top.scale((1 << w) - (1 << x.w))
        return self.whole(n)

    def whole(self, n):
        r = P()
        for lo, hi, k in self.slices(n):
            r = r + self.atom(k, hi - lo + 1).scale(1 << lo)
        return r

    def borrow(self, x, y):
        return self.atom("b%d.%d" % (x.id, y.id), 1)

    def lt(self, x, y):
        # carry out of an addition
        if x.op == "add" and (x.args[0] is y or x.args[1] is y) and y.op != "const":
            p = self.memo[x.args[0].id] + self.memo[x.args[1].id]
            if self.maxv(p) >> x.w == 0 and self.minv(p) >= 0:
                return P()
            return self.atom("c%d" % x.id, 1)
        # y + x < x written with wrapped operands is caught above; plain comparison otherwise
        return self.borrow(x, y)

    def slice(self, n, hi, lo):
        """polynomial of n[hi:lo]"""
        c = self.cuts.setdefault(n.id, {0, n.w})
        if lo not in c or hi + 1 not in c:
            return self.atom("t%d[%d:%d]" % (n.id, hi, lo), hi - lo + 1)
        if n.op in ("var",):
            sl = self.slices(n)
            r = P()
            for a, b, k in sl:
                if lo <= a and b <= hi:
                    r = r + self.atom(k, b - a + 1).scale(1 << (a - lo))
            return r
        sl = self.slices(n)
        r = P()
        for a, b, k in sl:
            if lo <= a and b <= hi:
                if a == 0:
                    v = self.memo[n.id]
                    for a2, b2, k2 in sl[1:]:
                        v = v - self.atom(k2, b2 - a2 + 1).scale(1 << a2)
                else:
                    v = self.atom(k, b - a + 1)
                r = r + v.scale(1 << (a - lo))
        return r


def expr(p):
    """SMT-LIB integer expression"""
    ts = []
    for k, v in sorted(p.m.items()):
        c = str(v) if v >= 0 else "(- %d)" % -v
        ts.append("(* %s)" % " ".join([c] + ["|%s|" % a for a in k]) if k else c)
    return "0" if not ts else ts[0] if len(ts) == 1 else "(+ %s)" % " ".join(ts)


def confirm(n, x, y, d, timeout=30):
    """z3 shows poly(x) - poly(y) = 2^w * k as an identity over the integers"""
    from . import solve
    w = x.w
    k = P({a: v >> w for a, v in d.m.items()})
    atoms = sorted({a for p in (n.exact(x), n.exact(y), k) for m in p.m for a in m})
    s = ["(set-logic QF_NIA)"] + ["(declare-const |%s| Int)" % a for a in atoms]
    s += ["(assert (and (<= 0 |%s|) (<= |%s| %d)))" % (a, a, n.rng[a]) for a in atoms]
    s.append("(assert (not (= (- %s %s) (* %d %s))))" % (expr(n.exact(x)), expr(n.exact(y)), 1 << w, expr(k)))
    s.append("(check-sat)")
    path = solve.tmpfile(".smt2")
    with open(path, "w") as f:
        f.write("\n".join(s) + "\n")
    solve.STATS["queries"] += 1
    try:
        out = subprocess.run(["z3-new", "-T:%d" % timeout, path], capture_output=True, text=True, timeout=timeout + 10).stdout
    except subprocess.TimeoutExpired:
        out = "unknown"
    r = out.strip().split("\n")[0]
    r = r if r in ("sat", "unsat") else "unknown"
    solve.STATS[r] += 1
    solve.STATS["by"]["z3"] = solve.STATS["by"].get("z3", 0) + 1
    return r == "unsat"


def equal_mod(x, y, roots=None, weight=None):
    """True when the polynomials of x and y agree modulo 2^w (w the common width)"""
    n = Norm(roots or [x, y])
    d = n.exact(x) - n.exact(y)
    m = 1 << x.w
    return all(v % m == 0 for v in d.m.values()), n, d

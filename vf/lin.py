"""Linear integer abstraction of a bit-vector query.

Terms become integer polynomials (poly.Norm); carries, borrows, high parts and slices are integer atoms constrained to
their defining ranges, products of atoms become variables constrained by bounds that hold for every product, quotients
and remainders by the division identity.  Operations without a rule become unconstrained.  Every constraint is a fact,
so an unsatisfiable abstraction shows the query unsatisfiable."""
import subprocess
from . import poly, solve
from . import terms as t
from .poly import P


class Lin(poly.Norm):
    def __init__(self, root):
        self.defs = []           # SMT assertions
        self.later = []
        self.mons = {}
        self.bools = {}
        self.decl = []
        self.fulldiv = {}
        poly.Norm.__init__(self, [root])
        # a quotient is cut where it is used in parts
        self.root = root

    # ---------------------------------------------------- integer side
    def mon(self, k):
        """name of the variable for a monomial"""
        if len(k) == 1:
            return "|%s|" % k[0]
        v = self.mons.get(k)
        if v is None:
            x, y = self.mon(k[:-1]), "|%s|" % k[-1]
            X = 1
            for a in k[:-1]:
                X *= self.rng[a]
            Y = self.rng[k[-1]]
            v = "|m%d|" % len(self.mons)
            self.mons[k] = v
            self.decl.append("(declare-const %s Int)" % v)
            A = self.defs.append
            A("(>= %s 0)" % v)
            A("(<= %s (* %d %s))" % (v, Y, x))
            A("(<= %s (* %d %s))" % (v, X, y))
            A("(>= %s (+ (* %d %s) (* %d %s) (- %d)))" % (v, Y, x, X, y, X * Y))
            A("(=> (>= %s 1) (>= %s %s))" % (y, v, x))
            A("(=> (>= %s 1) (>= %s %s))" % (x, v, y))
        return v

    def expr(self, p):
        ts = []
        for k, c in sorted(p.m.items()):
            s = str(c) if c >= 0 else "(- %d)" % -c
            ts.append(s if not k else self.mon(k) if c == 1 else "(* %s %s)" % (s, self.mon(k)))
        return "0" if not ts else ts[0] if len(ts) == 1 else "(+ %s)" % " ".join(ts)

    def atom(self, key, w):
        new = key not in self.rng
        r = poly.Norm.atom(self, key, w)
        if new:
            self.decl.append("(declare-const |%s| Int)" % key)
            self.defs.append("(and (<= 0 |%s|) (<= |%s| %d))" % (key, key, self.rng[key]))
        return r

    def sign(self, x):
        k = "s%d" % x.id
        new = k not in self.rng
        a = self.atom(k, 1)
        if new:
            self.defs.append("(= (= |%s| 1) (>= %s %d))" % (k, self.expr(self.memo[x.id]), 1 << (x.w - 1)))
        return a

    def fits(self, p, w):
        self.later.append((p, w))

    def _exact(self, n):
        op, w = n.op, n.w
        M = self.memo
        if op in ("udiv", "urem"):
            return self.division(n)
        if op in ("const", "var", "concat", "extract", "not", "sub") and w > 1 or op in ("const", "var"):
            return poly.Norm._exact(self, n)
        if w == 1:
            k = "t%d" % n.id
            p = self.atom(k, 1)
            self.later.append((n, k))
            return p
        if op == "sext":
            x = n.args[0]
            return M[x.id] + (M[x.id] if x.w == 1 else self.sign(x)).scale((1 << w) - (1 << x.w))
        if op in ("add", "mul"):
            p = poly.Norm._exact(self, n)
            self.fits(p, w)
            return p
        if op == "ite":
            a, b, c = M[n.args[0].id], M[n.args[1].id], M[n.args[2].id]
            r = self.whole(n)
            self.later.append((n, r))
            return r
        r = self.whole(n)
        if op == "or":
            a, b = n.args
            for x, y in ((a, b), (b, a)):
                k = trailing(x)
                if k:
                    self.later.append(("or", r, x, y, k))
            ae, be, re_ = self.expr(M[a.id]), self.expr(M[b.id]), self.expr(r)
            self.defs.append("(and (=> (= %s 0) (= %s %s)) (=> (= %s 0) (= %s %s)) (>= %s %s) (>= %s %s) (<= %s (+ %s %s)))"
                             % (ae, re_, be, be, re_, ae, re_, ae, re_, be, re_, ae, be))
        return r

    def borrow(self, x, y):
        k = "b%d.%d" % (x.id, y.id)
        new = k not in self.rng
        r = self.atom(k, 1)
        if new:
            self.later.append(("borrow", x, y, k))
        return r

    def slice(self, n, hi, lo):
        c = self.cuts.setdefault(n.id, {0, n.w})
        if n.w == 1:
            return self.memo[n.id]
        if n.op == "udiv":
            self.exact(n)
            r = P()
            for a, b, k in self.fulldiv[("div", n.args[0].id, n.args[1].id)][2]:
                if lo <= a and b <= hi + 1:
                    r = r + self.atom(k, b - a).scale(1 << (a - lo))
            return r
        r = poly.Norm.slice(self, n, hi, lo)
        if n.op != "var" and n.id not in self.fulldiv:
            # the lowest slice is the value less the higher ones: state its range
            sl = self.slices(n)
            v = self.memo[n.id]
            for a2, b2, k2 in sl[1:]:
                v = v - self.atom(k2, b2 - a2 + 1).scale(1 << a2)
            self.fits(v, sl[0][1] + 1)
            self.fulldiv[n.id] = True
        return r

    def division(self, n):
        x, y = n.args
        key = ("div", x.id, y.id)
        if key not in self.fulldiv:
            w = n.w
            q = t._mk("udiv", (x, y), w)
            cs = sorted(self.cuts.get(q.id, {0, w}))
            xa = t.sigw(x)
            qp = P()
            # quotient bits above what the dividend allows are zero
            sl = [(a, min(b, xa)) for a, b in zip(cs, cs[1:]) if a < xa]
            atoms = []
            for a, b in sl:
                k = "q%d[%d:%d]" % (q.id, b - 1, a)
                qp = qp + self.atom(k, b - a).scale(1 << a)
                atoms.append((a, b, k))
            rw = max(1, min(t.sigw(x), t.sigw(y)))
            rk = "r%d" % q.id
            rp = self.atom(rk, rw)
            self.fulldiv[key] = (qp, rp, atoms, cs)
            yp, xp = self.memo[y.id], self.memo[x.id]
            lhs = qp.mul(yp, self.boolean) + rp
            nz = "(not (= %s 0))" % self.expr(yp)
            self.defs.append("(=> %s (and (= %s %s) (< %s %s)))" % (nz, self.expr(lhs), self.expr(xp), self.expr(rp), self.expr(yp)))
            # a quotient at or above a power of two has a product at or above that multiple of the divisor
            qe, pe, ye = self.expr(qp), self.expr(qp.mul(yp, self.boolean)), self.expr(yp)
            for j in range(1, xa):
                self.defs.append("(=> (>= %s %d) (>= %s (* %d %s)))" % (qe, 1 << j, pe, 1 << j, ye))
        qp, rp, atoms, cs = self.fulldiv[key]
        return qp if n.op == "udiv" else rp

    # ---------------------------------------------------- boolean side
    def bool(self, n):
        b = self.bools.get(n.id)
        if b is None:
            for m in t.topo([n]):
                if m.w == 1 and m.id not in self.bools:
                    self.bools[m.id] = self._bool(m)
            b = self.bools[n.id]
        return b

    def name(self, m, e):
        if len(e) < 40:
            return e
        v = "|B%d|" % m.id
        self.decl.append("(declare-const %s Bool)" % v)
        self.defs.append("(= %s %s)" % (v, e))
        return v

    def _bool(self, n):
        op = n.op
        B = self.bools
        a = n.args
        if op == "const":
            return "true" if n.val else "false"
        if op == "var":
            return "(= %s 1)" % self.expr(self.exact(n))
        if op == "not":
            return "(not %s)" % B[a[0].id]
        if op in ("and", "or", "xor"):
            return self.name(n, "(%s %s %s)" % (op, B[a[0].id], B[a[1].id]))
        if op == "ite":
            return self.name(n, "(ite %s %s %s)" % tuple(B[x.id] for x in a))
        if op == "eq":
            if a[0].w == 1:
                return self.name(n, "(= %s %s)" % (B[a[0].id], B[a[1].id]))
            return self.name(n, "(= %s %s)" % (self.expr(self.exact(a[0])), self.expr(self.exact(a[1]))))
        if op == "ult":
            if a[0].w == 1:
                return self.name(n, "(and (not %s) %s)" % (B[a[0].id], B[a[1].id]))
            return self.name(n, "(< %s %s)" % (self.expr(self.exact(a[0])), self.expr(self.exact(a[1]))))
        if op == "ule":
            if a[0].w == 1:
                return self.name(n, "(or (not %s) %s)" % (B[a[0].id], B[a[1].id]))
            return self.name(n, "(<= %s %s)" % (self.expr(self.exact(a[0])), self.expr(self.exact(a[1]))))
        if op in ("slt", "sle") and a[0].w > 1:
            def s(x):
                return self.exact(x) - self.sign(x).scale(1 << x.w)
            return self.name(n, "(%s %s %s)" % ("<" if op == "slt" else "<=", self.expr(s(a[0])), self.expr(s(a[1]))))
        if op == "extract":
            x = a[0]
            i = n.val[1]
            if i == x.w - 1 and x.w > 1:
                return self.name(n, "(>= %s %d)" % (self.expr(self.exact(x)), 1 << i))
            return "(= %s 1)" % self.expr(self.slice_of(x, i))
        v = "|B%d|" % n.id
        self.decl.append("(declare-const %s Bool)" % v)
        return v

    def slice_of(self, x, i):
        self.exact(x)
        return self.slice(x, i, i)

    def script(self):
        top = self.bool(self.root)
        while self.later:
            it = self.later.pop()
            if it[0] == "borrow":
                _, x, y, k = it
                self.defs.append("(= (= |%s| 1) (< %s %s))" % (k, self.expr(self.exact(x)), self.expr(self.exact(y))))
            elif it[0] == "or":
                _, r, x, y, k = it
                e, a, b = self.expr(r), self.expr(self.exact(x)), self.expr(self.exact(y))
                self.defs.append("(=> (< %s %d) (= %s (+ %s %s)))" % (b, 1 << k, e, a, b))
            elif isinstance(it[0], P):
                p, w = it
                e = self.expr(p)
                self.defs.append("(and (<= 0 %s) (< %s %d))" % (e, e, 1 << w))
            elif isinstance(it[1], str):
                n, k = it
                self.defs.append("(= (= |%s| 1) %s)" % (k, self.bool(n)))
            else:
                n, r = it
                a, b, c = n.args
                self.defs.append("(ite %s (= %s %s) (= %s %s))" % (
                    self.bool(a), self.expr(r), self.expr(self.exact(b)), self.expr(r), self.expr(self.exact(c))))
        return "\n".join(["(set-logic QF_LIA)"] + self.decl + ["(assert %s)" % d for d in self.defs if d != "true"]
                         + ["(assert %s)" % top, "(check-sat)"]) + "\n"


def trailing(x):
    """number of constant zero bits at the bottom"""
    if x.op == "const":
        return x.w if x.val == 0 else (x.val & -x.val).bit_length() - 1
    if x.op == "concat":
        k = 0
        for s in reversed(x.args):
            j = trailing(s)
            k += j
            if j < s.w:
                break
        return k
    if x.op == "ite":
        return min(trailing(x.args[1]), trailing(x.args[2]))
    if x.op in ("or", "add", "sub"):
        return min(trailing(x.args[0]), trailing(x.args[1]))
    return 0


def pivot(q):
    """condition of an if-then-else that feeds a product or a quotient"""
    for n in t.topo([q]):
        if n.op in ("mul", "udiv", "urem"):
            for m in t.topo(list(n.args)):
                if m.op == "ite" and m.w > 1:
                    return m.args[0]
                if m.op == "extract" and m.w == 1 and n.op == "mul" and m in t.segments(n.args[0]) + t.segments(n.args[1]) and m.args[0].op not in ("var", "udiv"):
                    return m
                if m.op == "sext" and m.args[0].w == 1:
                    return m.args[0]
                if m.w == 1 and m.op in ("ult", "ule", "slt", "sle", "eq", "and", "or", "xor", "not"):
                    return m
    return None


def narrow(q):
    """replaces upper parts of quotients that are zero whatever the inputs, found by this abstraction itself"""
    while True:
        todo = [n for n in t.topo([q]) if n.op == "or" and n.w > 1]
        todo = [x for n in todo for x in n.args if x.op == "extract" and x.args[0].op == "udiv" and tried.get(x.id, True)]
        if not todo:
            return q
        x = todo[0]
        if x.id not in tried:
            tried[x.id] = check1(t.nonzero(x), 3) == "unsat"
        if tried[x.id]:
            q = t.substitute([q], {x.id: t.const(0, x.w)})[0]


tried = {}


def check(q, timeout=30, solver="z3-new", leaves=400):
    """'unsat' when the abstraction of every branch over the conditions feeding products is unsatisfiable"""
    q = narrow(q)
    todo, n = [q], 0
    while todo:
        q = todo.pop()
        if q is t.FALSE:
            continue
        c = pivot(q)
        if c is not None and n + len(todo) < leaves:
            todo.append(t.and_(c, t.substitute([q], {c.id: t.TRUE})[0]))
            todo.append(t.and_(t.not_(c), t.substitute([q], {c.id: t.FALSE})[0]))
            continue
        n += 1
        r = check1(q, timeout, solver)
        if r != "unsat":
            return r
    return "unsat"


def check1(q, timeout=30, solver="z3-new"):
    if q.is_const:
        return "sat" if q.val else "unsat"
    l = Lin(q)
    path = solve.tmpfile(".smt2")
    with open(path, "w") as f:
        f.write(l.script())
    solve.STATS["queries"] += 1
    cmd = {"z3-new": ["z3-new", "-T:%d" % timeout, path], "cvc5": ["cvc5", "--tlimit=%d" % (timeout * 1000), path]}[solver]
    import time
    t0 = time.time()
    try:
        out = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout + 10).stdout
    except subprocess.TimeoutExpired:
        out = "unknown"
    r = out.strip().split("\n")[0]
    if "error" in out:
        raise solve.ModelMismatch(out[:300])
    r = r if r in ("sat", "unsat") else "unknown"
    solve.STATS["time"] += time.time() - t0
    solve.STATS[r] += 1
    solve.STATS["by"][solver] = solve.STATS["by"].get(solver, 0) + 1
    return r


def find(q, fixed, timeout=10):
    """assignment satisfying q, looked for with the variables in `fixed` (id -> constant term) replaced; None when not found"""
    todo, n = [t.substitute([q], fixed)[0]], 0
    names = {v.id: v for v in t.variables([q])}
    while todo:
        x = todo.pop()
        if x is t.FALSE:
            continue
        c = pivot(x)
        if c is not None and n + len(todo) < 32:
            todo.append(t.and_(c, t.substitute([x], {c.id: t.TRUE})[0]))
            todo.append(t.and_(t.not_(c), t.substitute([x], {c.id: t.FALSE})[0]))
            continue
        n += 1
        env = {names[i].val: k.val for i, k in fixed.items() if i in names}
        if not x.is_const:
            got = model(x, timeout)
            if got is None:
                continue
            env.update(got)
        if t.evaluate([q], env, ufs=lambda *a: 0)[0]:
            return env
    return None


def model(x, timeout):
    l = Lin(x)
    path = solve.tmpfile(".smt2")
    s = l.script()
    vs = t.variables([x])
    keys = [(v, lo, hi, k) for v in vs for lo, hi, k in l.slices(v) if k in l.rng]
    if not keys:
        return None
    with open(path, "w") as f:
        f.write(s + "(get-value (%s))\n" % " ".join("|%s|" % k for v, lo, hi, k in keys))
    solve.STATS["queries"] += 1
    solve.STATS["by"]["z3-new"] = solve.STATS["by"].get("z3-new", 0) + 1
    try:
        out = subprocess.run(["z3-new", "-T:%d" % timeout, path], capture_output=True, text=True, timeout=timeout + 10).stdout
    except subprocess.TimeoutExpired:
        return None
    r = out.split("\n")[0].strip()
    solve.STATS[r if r in ("sat", "unsat") else "unknown"] += 1
    if r != "sat":
        return None
    import re
    val = {a or b: int(n) for a, b, n in re.findall(r"\((?:\|([^|]*)\||([^\s()|]+))\s+(\d+)\)", out)}
    env = {}
    for v, lo, hi, k in keys:
        env[v.val] = env.get(v.val, 0) | val.get(k, 0) << lo
    return env

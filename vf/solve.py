"""Solver back ends: bit-blasting to CNF (kissat / cadical), z3 and cvc5 via SMT-LIB."""
import os
import subprocess
import tempfile
import time
import signal
from . import terms as t

KISSAT = "/usr/local/bin/kissat"
CADICAL = "/app/lean4-4.33.0/build/release/stage1/bin/cadical"

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "trivial": 0, "time": 0.0, "clauses": 0, "by": {}}


def reset_stats():
    STATS.update({"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "trivial": 0, "time": 0.0, "clauses": 0, "by": {}})


def merge_stats(s):
    for k, v in s.items():
        if k == "by":
            for a, b in v.items():
                STATS["by"][a] = STATS["by"].get(a, 0) + b
        else:
            STATS[k] += v


class Blaster:
    """Tseitin encoding with structural hashing. Literal 1 is true, -1 false."""

    def __init__(self, lazy=False):
        self.nv = 1
        self.cl = [(1,)]
        self.h = {}
        self.bits = {}
        self.ufs = {}
        self.lazy = lazy                # leave the consistency of uninterpreted functions to congruent()

    def congruent(self, p, q):
        """equal arguments of two applications give equal results"""
        same = self.andn([self.eqv(x, y) for x, y in zip(p[0], q[0])])
        for x, y in zip(p[1], q[1]):
            self.cl += [(-same, -x, y), (-same, x, -y)]

    def new(self):
        self.nv += 1
        return self.nv

    def and2(self, a, b):
        if a == -1 or b == -1 or a == -b:
            return -1
        if a == 1:
            return b
        if b == 1 or a == b:
            return a
        if a > b:
            a, b = b, a
        k = (0, a, b)
        r = self.h.get(k)
        if r is None:
            r = self.new()
            self.h[k] = r
            self.cl += [(-r, a), (-r, b), (r, -a, -b)]
        return r

    def or2(self, a, b):
        return -self.and2(-a, -b)

    def andn(self, xs):
        s = set()
        for x in xs:
            if x == -1 or -x in s:
                return -1
            if x != 1:
                s.add(x)
        if not s:
            return 1
        if len(s) == 1:
            return s.pop()
        if len(s) == 2:
            a, b = s
            return self.and2(a, b)
        k = (3,) + tuple(sorted(s))
        r = self.h.get(k)
        if r is None:
            r = self.new()
            self.h[k] = r
            for x in s:
                self.cl.append((-r, x))
            self.cl.append((r,) + tuple(-x for x in s))
        return r

    def xor2(self, a, b):
        if a == 1:
            return -b
        if a == -1:
            return b
        if b == 1:
            return -a
        if b == -1:
            return a
        if a == b:
            return -1
        if a == -b:
            return 1
        sg = 1
        if a < 0:
            a, sg = -a, -sg
        if b < 0:
            b, sg = -b, -sg
        if a > b:
            a, b = b, a
        k = (1, a, b)
        r = self.h.get(k)
        if r is None:
            r = self.new()
            self.h[k] = r
            self.cl += [(-r, a, b), (-r, -a, -b), (r, -a, b), (r, a, -b)]
        return sg * r

    def mux(self, c, a, b):
        if c == 1:
            return a
        if c == -1:
            return b
        if a == b:
            return a
        if c < 0:
            c, a, b = -c, b, a
        if a == -b:
            return -self.xor2(c, a)
        if a == 1 or a == c:
            return self.or2(c, b)
        if a == -1 or a == -c:
            return self.and2(-c, b)
        if b == 1 or b == -c:
            return self.or2(-c, a)
        if b == -1 or b == c:
            return self.and2(c, a)
        sg = 1
        if a < 0:
            a, b, sg = -a, -b, -1
        k = (2, c, a, b)
        r = self.h.get(k)
        if r is None:
            r = self.new()
            self.h[k] = r
            self.cl += [(-c, -a, r), (-c, a, -r), (c, -b, r), (c, b, -r), (-a, -b, r), (a, b, -r)]
        return sg * r

    def maj(self, a, b, c):
        xs = [a, b, c]
        for i in range(3):
            x = xs[i]
            y, z = xs[i - 1], xs[i - 2]
            if x == 1:
                return self.or2(y, z)
            if x == -1:
                return self.and2(y, z)
            if y == z:
                return y
            if y == -z:
                return x
        k0 = sorted(xs)
        sg = 1
        if k0[1] < 0:
            k0 = sorted(-x for x in xs)
            sg = -1
        k = (4,) + tuple(k0)
        r = self.h.get(k)
        if r is None:
            r = self.new()
            self.h[k] = r
            a, b, c = k0
            self.cl += [(-a, -b, r), (-a, -c, r), (-b, -c, r), (a, b, -r), (a, c, -r), (b, c, -r)]
        return sg * r

    def fa(self, a, b, c):
        return self.xor2(self.xor2(a, b), c), self.maj(a, b, c)

    def addv(self, a, b, cin=-1):
        out = []
        c = cin
        for x, y in zip(a, b):
            s, c = self.fa(x, y, c)
            out.append(s)
        return out, c

    def ultv(self, a, b, orequal=False):
        # a < b : no carry out of b + ~a ... computed as borrow chain
        c = 1 if orequal else -1
        for x, y in zip(a, b):
            # c' = (~x & y) | (~(x^y) & c)
            c = self.maj(-x, y, c)
        return c

    def mulv(self, a, b):
        w = len(a)
        # use the operand with more constant / fewer distinct bits as multiplier
        ca = sum(1 for x in a if x not in (1, -1))
        cb = sum(1 for x in b if x not in (1, -1))
        if ca < cb:
            a, b = b, a
        acc = None
        for i, y in enumerate(b):
            if y == -1:
                continue
            row = [-1] * i + [self.and2(x, y) for x in a[:w - i]]
            if acc is None:
                acc = row
            else:
                acc, _ = self.addv(acc, row)
        return acc if acc is not None else [-1] * w

    def eqv(self, a, b):
        return self.andn([-self.xor2(x, y) for x, y in zip(a, b)])

    def shift(self, a, s, left, fill):
        w = len(a)
        cur = list(a)
        k = 0
        while (1 << k) < w:
            if k < len(s):
                d = 1 << k
                b = s[k]
                if left:
                    sh = [fill] * min(d, w) + cur[:w - d]
                else:
                    sh = cur[d:] + [fill] * min(d, w)
                cur = [self.mux(b, x, y) for x, y in zip(sh, cur)]
            k += 1
        if k < len(s):
            big = -self.andn([-x for x in s[k:]])
            cur = [self.mux(big, fill, x) for x in cur]
        return cur

    def blast(self, root):
        for n in t.topo([root]):
            if n.id in self.bits:
                continue
            self.bits[n.id] = self._node(n)
        return self.bits[root.id]

    def _node(self, n):
        op = n.op
        w = n.w
        B = self.bits
        if op == "const":
            return [1 if n.val >> i & 1 else -1 for i in range(w)]
        if op == "var":
            return [self.new() for _ in range(w)]
        if op == "uf":
            r = [self.new() for _ in range(w)]
            args = [B[a.id] for a in n.args]
            apps = self.ufs.setdefault((n.val, w), [])
            if not self.lazy:
                for o in apps:
                    self.congruent((args, r), o)
            apps.append((args, r))
            return r
        a = B[n.args[0].id]
        if op == "not":
            return [-x for x in a]
        if op == "extract":
            return a[n.val[1]:n.val[0] + 1]
        if op == "concat":
            out = []
            for s in reversed(n.args):
                out += B[s.id]
            return out
        if op == "sext":
            return a + [a[-1]] * (w - len(a))
        b = B[n.args[1].id]
        if op == "and":
            return [self.and2(x, y) for x, y in zip(a, b)]
        if op == "or":
            return [self.or2(x, y) for x, y in zip(a, b)]
        if op == "xor":
            return [self.xor2(x, y) for x, y in zip(a, b)]
        if op == "ite":
            c = B[n.args[2].id]
            s = a[0]
            return [self.mux(s, x, y) for x, y in zip(b, c)]
        if op == "add":
            return self.addv(a, b)[0]
        if op == "sub":
            return self.addv(a, [-x for x in b], 1)[0]
        if op == "mul":
            return self.mulv(a, b)
        if op == "eq":
            return [self.eqv(a, b)]
        if op == "ult":
            return [self.ultv(a, b)]
        if op == "ule":
            return [self.ultv(a, b, True)]
        if op in ("slt", "sle"):
            a2 = a[:-1] + [-a[-1]]
            b2 = b[:-1] + [-b[-1]]
            return [self.ultv(a2, b2, op == "sle")]
        if op == "shl":
            return self.shift(a, b, True, -1)
        if op == "lshr":
            return self.shift(a, b, False, -1)
        if op == "ashr":
            return self.shift(a, b, False, a[-1])
        if op in ("udiv", "urem"):
            q, r = self.divmod(a, b)
            return q if op == "udiv" else r
        if op in ("sdiv", "srem"):
            sa, sb = a[-1], b[-1]
            ua = self.condneg(a, sa)
            ub = self.condneg(b, sb)
            q, r = self.divmod(ua, ub)
            return self.condneg(q, self.xor2(sa, sb)) if op == "sdiv" else self.condneg(r, sa)
        raise ValueError(op)

    def condneg(self, a, s):
        x = [self.xor2(y, s) for y in a]
        return self.addv(x, [s] + [-1] * (len(a) - 1))[0]

    def divmod(self, a, b):
        k = ("div", tuple(a), tuple(b))
        r = self.h.get(k)
        if r is not None:
            return r
        w = len(a)
        q = [self.new() for _ in range(w)]
        rem = [self.new() for _ in range(w)]
        # leading constant zeros of a are leading zeros of q and rem
        i = w - 1
        while i >= 0 and a[i] == -1:
            rem[i] = -1
            i -= 1
        z = [-1] * w
        prod = self.mulv(q + z, b + z)
        s, c = self.addv(prod, rem + z)
        bz = self.andn([-x for x in b])
        ok = [-bz]
        for x, y in zip(s, a + z):
            e = -self.xor2(x, y)
            self.cl.append((bz, e))
        self.cl.append((bz, self.ultv(rem, b)))
        # division by zero: all ones, remainder = dividend
        q2 = [self.or2(bz, x) for x in q]
        r2 = [self.mux(bz, x, y) for x, y in zip(a, rem)]
        self.h[k] = (q2, r2)
        return q2, r2

    def dimacs(self, path, extra):
        n = len(self.cl) + len(extra)
        with open(path, "w") as f:
            f.write("p cnf %d %d\n" % (self.nv, n))
            buf = []
            for c in self.cl:
                buf.append(" ".join(map(str, c)) + " 0\n")
                if len(buf) > 20000:
                    f.write("".join(buf))
                    buf = []
            for c in extra:
                buf.append(" ".join(map(str, c)) + " 0\n")
            f.write("".join(buf))


def scratch_dir():
    d = os.environ.get("VF_SCRATCH")
    if not d:
        d = tempfile.mkdtemp(prefix="vfsolve-")
        os.environ["VF_SCRATCH"] = d
        import atexit
        import shutil
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return d


def parse_dimacs_model(out):
    m = {}
    for l in out.split("\n"):
        if l.startswith("v "):
            for x in l[2:].split():
                v = int(x)
                if v:
                    m[abs(v)] = v > 0
    return m


_seq = [0]


def tmpfile(suffix):
    _seq[0] += 1
    return os.path.join(scratch_dir(), "q%d_%d%s" % (os.getpid(), _seq[0], suffix))


def _model_from_bits(bl, root, m):
    env = {}
    for v in t.variables([root]):
        bits = bl.bits.get(v.id)
        x = 0
        for i, b in enumerate(bits):
            val = m.get(abs(b), False)
            if b < 0:
                val = not val
            if val:
                x |= 1 << i
        env[v.val] = x
    return env


def _uf_model(bl, root, m):
    """table of the uninterpreted applications under the model"""
    def val(bits):
        x = 0
        for i, b in enumerate(bits):
            v = m.get(abs(b), False) if abs(b) != 1 else True
            if b < 0:
                v = not v
            if v:
                x |= 1 << i
        return x
    tab = {}
    for (name, w), apps in bl.ufs.items():
        for args, r in apps:
            tab[(name,) + tuple(val(a) for a in args)] = val(r)
    return tab


def check(term, timeout=60, want_uf=False, engine="kissat"):
    """satisfiability of a 1-bit term: ('sat', env) | ('unsat', None) | ('unknown', None)"""
    t0 = time.time()
    STATS["queries"] += 1
    if term.is_const:
        STATS["trivial"] += 1
        r = "sat" if term.val else "unsat"
        STATS[r] += 1
        return (r, {}) if term.val else (r, None)
    res = _check(term, timeout, engine)
    STATS["time"] += time.time() - t0
    STATS[res[0]] += 1
    return res


class ModelMismatch(Exception):
    pass


def _check(term, timeout, engine):
    bl = Blaster(lazy=True)
    root = bl.blast(term)[0]
    if root == -1:
        return ("unsat", None)
    end = time.time() + timeout
    done = set()
    while True:
        left = end - time.time()
        r, m = ("sat", {}) if root == 1 and not bl.ufs else _sat(bl, root, max(1, left), engine)
        if r != "sat":
            return (r, None)
        new = _inconsistent(bl, m, done)
        if not new:
            return _verify(term, bl, m)
        if left < 1:
            return ("unknown", None)
        done |= {k for k, _, _ in new}
        for _, p, q in new:
            bl.congruent(p, q)


def _inconsistent(bl, m, done):
    """pairs of applications with equal arguments and different results under the model"""
    def lit(b):
        v = m.get(abs(b), False) if abs(b) != 1 else True
        return v if b > 0 else not v
    out = []
    for key, apps in bl.ufs.items():
        groups = {}
        for i, (args, r) in enumerate(apps):
            groups.setdefault(tuple(lit(b) for a in args for b in a), []).append(i)
        for g in groups.values():
            ref = [lit(b) for b in apps[g[0]][1]]
            if all([lit(b) for b in apps[i][1]] == ref for i in g[1:]):
                continue
            for x in range(len(g)):
                for y in range(x):
                    k = (key, g[y], g[x])
                    if k not in done:
                        out.append((k, apps[g[y]], apps[g[x]]))
    return out


def _sat(bl, root, timeout, engine):
    STATS["clauses"] += len(bl.cl)
    path = tmpfile(".cnf")
    bl.dimacs(path, [(root,)])
    cmd = [KISSAT, "-q", "--time=%d" % max(1, int(timeout)), path] if engine == "kissat" else \
        [CADICAL, "-q", "-t", str(max(1, int(timeout))), path]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout + 30)
        out = p.stdout
        rc = p.returncode
    except subprocess.TimeoutExpired:
        return ("unknown", None)
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass
    STATS["by"][engine] = STATS["by"].get(engine, 0) + 1
    if rc == 20:
        return ("unsat", None)
    if rc == 10:
        return ("sat", parse_dimacs_model(out))
    return ("unknown", None)


def _verify(term, bl, m):
    env = _model_from_bits(bl, term, m)
    tab = _uf_model(bl, term, m)
    v = t.evaluate([term], env, lambda name, args, n: tab.get((name,) + tuple(args), 0))[0]
    if not v:
        raise ModelMismatch("bit-blaster model does not satisfy the query")
    if tab:
        env["__uf__"] = tab
    return ("sat", env)


# ---------------------------------------------------------------- SMT-LIB

def smtlib(term, logic="QF_UFBV"):
    """SMT-LIB script asserting the 1-bit term"""
    out = ["(set-logic %s)" % logic, "(set-option :produce-models true)"]
    names = {}
    decls = []
    uf = {}
    body = []
    for n in t.topo([term]):
        i = "n%d" % n.id
        op = n.op
        if op == "const":
            names[n.id] = "(_ bv%d %d)" % (n.val, n.w)
            continue
        if op == "var":
            nm = "|%s|" % n.val
            names[n.id] = nm
            decls.append("(declare-const %s (_ BitVec %d))" % (nm, n.w))
            continue
        a = [names[x.id] for x in n.args]
        if op == "uf":
            if n.val not in uf:
                uf[n.val] = True
                decls.append("(declare-fun |%s| (%s) (_ BitVec %d))" % (
                    n.val, " ".join("(_ BitVec %d)" % x.w for x in n.args), n.w))
            e = "(|%s| %s)" % (n.val, " ".join(a))
        elif op == "extract":
            e = "((_ extract %d %d) %s)" % (n.val[0], n.val[1], a[0])
        elif op == "sext":
            e = "((_ sign_extend %d) %s)" % (n.w - n.args[0].w, a[0])
        elif op == "concat":
            e = a[0]
            for x in a[1:]:
                e = "(concat %s %s)" % (e, x)
        elif op == "ite":
            e = "(ite (= %s #b1) %s %s)" % tuple(a)
        elif op == "eq":
            e = "(ite (= %s %s) #b1 #b0)" % tuple(a)
        elif op in ("ult", "ule", "slt", "sle"):
            e = "(ite (bv%s %s %s) #b1 #b0)" % (op, a[0], a[1])
        else:
            f = {"and": "bvand", "or": "bvor", "xor": "bvxor", "not": "bvnot", "add": "bvadd", "sub": "bvsub",
                 "mul": "bvmul", "udiv": "bvudiv", "urem": "bvurem", "sdiv": "bvsdiv", "srem": "bvsrem",
                 "shl": "bvshl", "lshr": "bvlshr", "ashr": "bvashr"}[op]
            e = "(%s %s)" % (f, " ".join(a))
        body.append("(define-fun %s () (_ BitVec %d) %s)" % (i, n.w, e))
        names[n.id] = i
    out += decls + body
    out.append("(assert (= %s #b1))" % names[term.id])
    out.append("(check-sat)")
    return "\n".join(out) + "\n"


def smt_check(term, solver="z3", timeout=60, opts=()):
    """satisfiability via an external SMT solver, verdict only"""
    if term.is_const:
        return "sat" if term.val else "unsat"
    STATS["queries"] += 1
    t0 = time.time()
    path = tmpfile(".smt2")
    with open(path, "w") as f:
        f.write(smtlib(term))
    if solver == "z3":
        cmd = ["z3-new", "-T:%d" % max(1, int(timeout)), path]
    else:
        cmd = ["cvc5", "--tlimit=%d" % int(timeout * 1000)] + list(opts) + [path]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout + 30)
        out = p.stdout.strip().split("\n")
    except subprocess.TimeoutExpired:
        out = ["unknown"]
    finally:
        try:
            os.unlink(path)
        except OSError:
            pass
    r = out[0] if out and out[0] in ("sat", "unsat") and not any("(error" in l for l in out) else "unknown"
    STATS["time"] += time.time() - t0
    STATS[r] += 1
    STATS["by"][solver] = STATS["by"].get(solver, 0) + 1
    return r


# ---------------------------------------------------------------- parallel cases

def parallel(fn, items, jobs=8, budget=None, chunk=1):
    """fn(item) in forked workers; yields (item index, result, stats). Results come in any order.

    A worker that dies yields the result ('error', text)."""
    import multiprocessing as mp
    scratch_dir()
    ctx = mp.get_context("fork")
    global _FN, _ITEMS
    _FN, _ITEMS = fn, items
    deadline = time.time() + budget if budget else None
    pool = ctx.Pool(min(jobs, max(1, len(items))), maxtasksperchild=200)
    try:
        it = pool.imap_unordered(_work, range(len(items)), chunksize=chunk)
        for _ in range(len(items)):
            try:
                r = it.next(timeout=max(0.1, deadline - time.time()) if deadline else None)
            except mp.TimeoutError:
                break
            merge_stats(r[2])
            yield r
    finally:
        pool.terminate()
        pool.join()


def _work(i):
    import traceback
    reset_stats()
    try:
        r = _FN(_ITEMS[i])
    except Exception as e:
        r = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    s = dict(STATS)
    return (i, r, s)

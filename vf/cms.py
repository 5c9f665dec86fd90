"""Incremental SAT through the C interface of cryptominisat."""
import ctypes
import glob

_lib = None


class _Slice(ctypes.Structure):
    _fields_ = [("vals", ctypes.POINTER(ctypes.c_uint8)), ("num", ctypes.c_size_t)]


def lib():
    global _lib
    if _lib is None:
        p = sorted(glob.glob("/usr/lib/*/libcryptominisat5.so*"))
        if not p:
            _lib = False
            return _lib
        l = ctypes.CDLL(p[0])
        l.cmsat_new.restype = ctypes.c_void_p
        l.cmsat_free.argtypes = [ctypes.c_void_p]
        l.cmsat_new_vars.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
        l.cmsat_add_clause.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_uint32), ctypes.c_size_t]
        l.cmsat_solve_with_assumptions.argtypes = [ctypes.c_void_p, ctypes.POINTER(ctypes.c_uint32), ctypes.c_size_t]
        l.cmsat_solve_with_assumptions.restype = ctypes.c_uint8
        l.cmsat_get_model.argtypes = [ctypes.c_void_p]
        l.cmsat_get_model.restype = _Slice
        l.cmsat_set_max_time.argtypes = [ctypes.c_void_p, ctypes.c_double]
        l.cmsat_set_no_simplify.argtypes = [ctypes.c_void_p]
        l.cmsat_set_no_simplify_at_startup.argtypes = [ctypes.c_void_p]
        l.cmsat_set_no_bve.argtypes = [ctypes.c_void_p]
        _lib = l
    return _lib


class Solver:
    def __init__(self):
        self.l = lib()
        self.s = self.l.cmsat_new()
        self.l.cmsat_set_no_simplify(self.s)
        self.l.cmsat_set_no_simplify_at_startup(self.s)
        self.nv = 0

    def grow(self, n):
        if n > self.nv:
            self.l.cmsat_new_vars(self.s, n - self.nv)
            self.nv = n

    def add(self, cl):
        a = (ctypes.c_uint32 * len(cl))(*[2 * (x - 1) if x > 0 else 2 * (-x - 1) + 1 for x in cl])
        self.l.cmsat_add_clause(self.s, a, len(cl))

    def solve(self, assumptions, limit):
        self.l.cmsat_set_max_time(self.s, limit)
        a = (ctypes.c_uint32 * len(assumptions))(*[2 * (x - 1) if x > 0 else 2 * (-x - 1) + 1 for x in assumptions])
        r = self.l.cmsat_solve_with_assumptions(self.s, a, len(assumptions))
        return {0: "sat", 1: "unsat"}.get(r, "unknown")

    def model(self):
        m = self.l.cmsat_get_model(self.s)
        return [m.vals[i] == 0 for i in range(m.num)]

    def close(self):
        if self.s:
            self.l.cmsat_free(self.s)
            self.s = None


class Values:
    """enumerates the values a term can take under a condition"""

    def __init__(self, most=24):
        self.most = most
        self.bl, self.s, self.fed = None, None, 0
        self.cache = {}

    def __call__(self, cond, x):
        """set of values, None when there are more than `most` or the solver gives up"""
        from . import solve, terms as t
        k = (cond.id, x.id)
        if k in self.cache:
            return self.cache[k]
        if self.bl is None:
            self.bl, self.s = solve.Blaster(), Solver()
        bits = self.bl.blast(x)
        c = self.bl.blast(cond)[0]
        self.bl.nv += 1
        act = self.bl.nv
        out, got = [], None
        while len(out) <= self.most:
            self.s.grow(self.bl.nv)
            for cl in self.bl.cl[self.fed:]:
                self.s.add(cl)
            self.fed = len(self.bl.cl)
            r = self.s.solve([act, c], 5)
            if r == "unsat":
                got = sorted(out)
                break
            if r != "sat":
                break
            m = self.s.model()
            v, cl = 0, [-act]
            for i, l in enumerate(bits):
                val = bool(m[abs(l) - 1]) ^ (l < 0)
                v |= val << i
                cl.append(-l if val else l)
            out.append(v)
            self.bl.cl.append(tuple(cl))
        self.cache[k] = got
        return got

    def possible(self, cond):
        from . import terms as t
        return self(cond, t.FALSE) != []


class Fold:
    """constant value of a term under a condition, when it has only one"""

    def __init__(self, limit=1.0, maxnodes=4000):
        from . import solve
        self.bl, self.s, self.fed = solve.Blaster(), Solver(), 0
        self.limit = limit
        self.maxnodes = maxnodes
        self.envs = []
        self.cache = {}

    def solve(self, ls):
        self.s.grow(self.bl.nv)
        for cl in self.bl.cl[self.fed:]:
            self.s.add(cl)
        self.fed = len(self.bl.cl)
        return self.s.solve(ls, self.limit)

    def __call__(self, cond, x):
        from . import solve, terms as t
        k = (cond.id, x.id)
        r = self.cache.get(k)
        if r is None:
            r = self.cache[k] = self.one(cond, x, t, solve)
        return r

    def one(self, cond, x, t, solve):
        vals = set()
        for e, c in self.envs:
            o, v = t.evaluate([cond, x], e, ufs=lambda *a: 0, cache=c)
            if o:
                vals.add(v)
                if len(vals) > 1:
                    return x
        ns = t.topo([cond, x])
        if len(ns) > self.maxnodes or any(
                n.op in ("udiv", "urem", "sdiv", "srem") or n.op == "mul" and not any(a.is_const for a in n.args) for n in ns):
            return x
        c = self.bl.blast(cond)[0]
        if not vals:
            r = self.solve([c])
            if r != "sat":
                return x
            e = self.env(t, [cond, x])
            vals.add(t.evaluate([x], e, ufs=lambda *a: 0)[0])
        v = vals.pop()
        k = t.const(v, x.w)
        l = self.bl.blast(t.ne(x, k))[0]
        if l == -1:
            return k
        r = self.solve([c, l])
        solve.STATS["queries"] += 1
        solve.STATS[r] += 1
        solve.STATS["by"]["cryptominisat"] = solve.STATS["by"].get("cryptominisat", 0) + 1
        if r == "sat":
            self.env(t, [cond, x])
        return k if r == "unsat" else x

    def env(self, t, roots):
        m = self.s.model()
        e = {}
        for v in t.variables(roots):
            b = self.bl.bits.get(v.id)
            x = 0
            for i, l in enumerate(b or ()):
                if bool(m[abs(l) - 1]) ^ (l < 0):
                    x |= 1 << i
            e[v.val] = x
        self.envs.append((e, {}))
        return e

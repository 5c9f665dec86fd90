"""SAT sweeping on terms: under an assumption, replaces nodes by constants or by earlier nodes they always equal.

Candidates come from evaluating all nodes on sample inputs; every replacement is shown by the solver before it is
made, so the rewritten query is equivalent to the original one for inputs satisfying the assumption."""
import time
from . import cms, solve
from . import terms as t

SKIP = ("const", "var", "extract", "concat", "sext", "not")


class Sweeper:
    def __init__(self, assume, samples, limit=0.3, budget=60, maxw=None, wide=None, hard=True, depth=None, onlyvars=False):
        self.assume = assume
        self.samples = list(samples)
        self.limit = limit
        self.wide = wide or limit        # for nodes of 48 bits and more
        self.deadline = time.time() + budget
        self.maxw = maxw
        self.hard = hard                 # try nodes that depend on products or quotients
        self.depth = depth               # only nodes up to this height
        self.onlyvars = onlyvars         # only replace nodes by variables
        self.bl = solve.Blaster()
        self.s = cms.Solver()
        self.fed = 0
        self.st = {"tried": 0, "const": 0, "merged": 0, "cex": 0, "timeout": 0}
        if not assume.is_const:
            r = self.bl.blast(assume)[0]
            self.bl.cl.append((r,))

    def feed(self):
        self.s.grow(self.bl.nv)
        for c in self.bl.cl[self.fed:]:
            self.s.add(c)
        self.fed = len(self.bl.cl)

    def differs(self, x, y):
        """'unsat' when x == y under the assumption; a new sample environment when not"""
        l = self.bl.blast(t.ne(x, y))[0]
        if l == -1:
            return "unsat", None
        self.feed()
        r = self.s.solve([l], self.wide if x.w >= 48 else self.limit)
        solve.STATS["queries"] += 1
        solve.STATS[r] += 1
        solve.STATS["by"]["cryptominisat"] = solve.STATS["by"].get("cryptominisat", 0) + 1
        if r == "unsat":
            self.bl.cl.append((-l,))         # later proofs may use it
        if r != "sat":
            return r, None
        m = self.s.model()
        env = {}
        for v in self.vars:
            b = self.bl.bits.get(v.id)
            if b is None:
                env[v.val] = self.samples[0].get(v.val, 0) if self.samples else 0
                continue
            x = 0
            for i, l in enumerate(b):
                val = m[abs(l) - 1]
                if l < 0:
                    val = not val
                if val:
                    x |= 1 << i
            env[v.val] = x
        return "sat", env

    def run(self, roots):
        t0 = time.time()
        nodes = t.topo(roots)
        self.vars = [n for n in nodes if n.op == "var"] + t.variables([self.assume])
        cols = [{} for _ in self.samples]
        for e, c in zip(self.samples, cols):
            t.evaluate(roots, e, ufs=lambda *a: 0, cache=c)
        memo = {}
        classes = {}
        extra = []            # values of counterexample samples, evaluated lazily

        heavy = set()
        if not self.hard:
            for n in nodes:
                if (n.op in ("udiv", "urem", "sdiv", "srem") or n.op == "mul" and not any(a.is_const for a in n.args)
                        or any(a.id in heavy for a in n.args)):
                    heavy.add(n.id)

        if self.depth:
            lev = {}
            for n in nodes:
                lev[n.id] = 1 + max([lev[a.id] for a in n.args], default=0)
                if lev[n.id] > self.depth:
                    heavy.add(n.id)

        def sig(n):
            # widths are left out: a node may equal a narrower one, extended
            return tuple(c[n.id] for c in cols)

        def resize(c, w):
            return c if c.w == w else t.zext(c, w) if c.w < w else t.extract(c, w - 1, 0)

        def rehash():
            old = list(classes.items())
            classes.clear()
            for _, lst in old:
                for o, nw in lst:
                    classes.setdefault(sig(o), []).append((o, nw))
        for n in nodes:
            if not n.args:
                memo[n.id] = n
                if n.op == "var":
                    classes.setdefault(sig(n), []).append((n, n))
                continue
            args = [memo[a.id] for a in n.args]
            new = n if all(x is y for x, y in zip(args, n.args)) else t.build(n, args)
            memo[n.id] = new
            if new.is_const or (self.maxw and n.w > self.maxw) or n.id in heavy:
                continue
            if n.op in SKIP and not (self.depth and n.w == 1 and n.op == "extract") and (n.w < 8 or len(set(sig(n))) > 1 and (n.op != "concat" or sig(n) not in classes)):
                if n.w >= 8:
                    classes.setdefault(sig(n), []).append((n, new))
                continue
            if time.time() > self.deadline:
                continue
            tries = 0
            while tries < 6:
                s = sig(n)
                if len(set(s)) == 1:
                    if self.onlyvars:
                        break
                    cand = t.const(s[0], n.w)
                    kind = "const"
                else:
                    lst = [x for x in classes.get(s, ()) if x[1].id != new.id and (n.w == 1) == (x[1].w == 1)
                           and (not self.onlyvars or x[1].op == "var")]
                    if not lst:
                        break
                    cand = resize(min(lst, key=lambda x: x[1].w != n.w)[1], n.w)
                    kind = "merged"
                    if cand is new:
                        break
                tries += 1
                self.st["tried"] += 1
                r, env = self.differs(new, cand)
                if r == "unsat":
                    memo[n.id] = cand
                    self.st[kind] += 1
                    break
                if r == "unknown":
                    self.st["timeout"] += 1
                    break
                self.st["cex"] += 1
                c = {}
                t.evaluate(roots, env, ufs=lambda *a: 0, cache=c)
                if not t.evaluate([self.assume], env, ufs=lambda *a: 0)[0]:
                    break
                cols.append(c)
                self.samples.append(env)
                rehash()
                if sig(n) == s + (s[0],):
                    break
            if memo[n.id] is new:
                classes.setdefault(sig(n), []).append((n, new))
        solve.STATS["time"] += time.time() - t0
        return [memo[r.id] for r in roots]

    def close(self):
        self.s.close()


def sweep(roots, assume, samples, **kw):
    if not samples:
        return list(roots), {}
    s = Sweeper(assume, samples, **kw)
    try:
        return s.run(roots), s.st
    finally:
        s.close()

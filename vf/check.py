"""Goals, their parallel decision, replay of counterexamples and the evidence file."""
import json
import os
import random
import re
import sys
import time
import traceback
from . import build, cms, lin, llir, mulabs, native, poly, solve, sweep, symex, fp
from . import terms as t

EVID = os.environ.get("VF_EVID", os.path.join(build.VERIF, "evidence"))


class Code:
    """one build of the code under test: IR modules and, for the host, object files"""

    def __init__(self, key, lls, objs):
        self.key = key
        self.lls = lls if isinstance(lls, list) else [lls]
        self.objs = objs if isinstance(objs, list) else [objs] if objs else []
        self.mods = [llir.Module(p) for p in self.lls]
        self.exe = {}

    def func(self, name):
        for m in self.mods:
            n = m.resolve("@" + name)
            if n in m.funcs:
                f = m.funcs[n]
                f.parse()
                return f
        return None

    def native(self, name, bufs=None):
        k = (name, str(bufs))
        if k not in self.exe:
            self.exe[k] = native.Native(self, self.func(name), bufs)
        return self.exe[k]


_codes = {}


def host(arch=True):
    k = "host" if arch else "hostgen"
    if k not in _codes:
        ll, ob = build.host(arch)
        _codes[k] = Code("x86_64" if arch else "x86_64, no arch feature", ll, ob)
    return _codes[k]


def cross(tgt, arch=True, plain=False):
    k = (tgt, plain)
    if k not in _codes:
        _codes[k] = Code(tgt, build.cross(tgt, arch, plain=plain), None)
    return _codes[k]


def harness(name, feats=(), checked=False):
    k = (name, tuple(feats), checked)
    if k not in _codes:
        lls, obs = build.harness(name, feats, checked)
        obs = obs + host().objs       # run-time library for operations the back end lowers to calls
        _codes[k] = Code("%s%s%s" % (name, " +" + ",".join(feats) if feats else "", " checked" if checked else ""),
                         lls, obs)
    return _codes[k]


def argw(ty, ptrw=64):
    if ty[0] == "i":
        return ty[1]
    if ty[0] == "f":
        return llir.FBITS[ty[1]]
    if ty[0] == "vec":
        return ty[1] * argw(ty[2])
    return None


class Case:
    """part of the input space: pred(args); gen(rnd) draws an input tuple for the sweeping samples;
    hints(args) are further terms the sweeping may show nodes equal to"""

    def __init__(self, pred, gen=None, timeout=None, sweep=None, name=None, via=None, hints=None):
        self.pred, self.gen, self.timeout, self.sweep, self.name, self.via, self.hints = pred, gen, timeout, sweep, name, via, hints

    def __call__(self, a):
        return self.pred(a)


class Shape:
    """a family of inputs: the arguments are build(vars); inv(args) recovers the variables of a member"""

    def __init__(self, widths, build, inv, pre=None, **over):
        self.widths, self.build, self.inv, self.pre, self.over = widths, build, inv, pre, over

    def member(self, args):
        vs = self.inv(args)
        c = t.ands([t.eq(x, y) for x, y in zip(self.build(vs), args)])
        return t.and_(c, self.pre(vs)) if self.pre else c


class Goal:
    """Decides: for every input with `pre`, ok(args, ret) holds and no obligation of the execution is reachable.

    ok(args, ret) builds a 1-bit term; it is used symbolically in the query and on constants in the replay.
    cases: list of callables args -> 1-bit term; together with `cover` they must exhaust the inputs (the
    complement of their disjunction is added as a last case automatically)."""

    def __init__(self, code, fn, ok, pre=None, cases=None, timeout=60, name=None, fpsem=None, note=None, sret=None,
                 max_iter=300, bounds=None, overrides=None, hooks=None, asm=None, obls=True, engine="kissat",
                 feasible=None, tighten=None, samples=None, nat=True, cover=True, outw=(),
                 absm=None, hunt=None, hunt_timeout=40, poly=None, concrete=True, shapes=None, sweep=None, via=None, gen=None, one=False,
                 fold=False, hints=None, lin=None, fix=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.name = name or "%s [%s]" % (fn, code.key)
        self._prep = None
        self.reduced = False

    def key(self):
        f = self.code.func(self.fn)
        if f is None:
            return None
        txt = native.closure(self.code, f.name, types=False)
        return (type(self).__name__, self.fn, self.code.mods[0].layout, re.sub(r"Cs[0-9a-zA-Z]{8,13}_", "", txt))

    # -------------------------------------------------------------- encoding
    def prep(self, shape=None):
        if self._prep is None or self._prep.shape is not shape:
            self._prep = self.encode(shape)
        return self._prep

    def encode(self, shape=None):
        f = self.code.func(self.fn)
        if f is None:
            raise symex.SymexError("no function %s" % self.fn)
        ex = symex.Exec(self.code.mods, fpsem=self.fpsem, max_iter=self.max_iter, overrides=self.overrides,
                        asm=self.asm, feasible=self.feasible)
        if self.hooks:
            ex.hooks.update(self.hooks)
        if self.fold and cms.lib():
            ex.fold = cms.Fold()
        args, vals, so = [], [], None
        ws = [argw(ty) for nm, ty, at in f.params]
        free = [t.var("a%d" % i, w) for i, w in enumerate(x for x in ws if x is not None)]
        inputs = free
        if shape:
            free = [t.var("s%d" % i, w) for i, w in enumerate(shape.widths)]
            inputs = shape.build(free)
        for i, (nm, ty, at) in enumerate(f.params):
            w = argw(ty)
            if w is None:
                if so is None and self.sret and i == 0:
                    so = ex.new_obj("ret", self.sret, "global", align=16)
                    args.append(symex.Ptr([(t.TRUE, so, t.const(0, ex.ptrw))]))
                    continue
                o = ex.new_obj("arg%d" % i, 16, "global", align=16)
                args.append(symex.Ptr([(t.TRUE, o, t.const(0, ex.ptrw))]))
                self.__dict__.setdefault("outs", []).append(o)
                continue
            v = inputs[len(vals)]
            vals.append(v)
            args.append(ex.split_vec(ty, v) if ty[0] == "vec" else v)
        pc = ()
        if self.pre is not None:
            p = self.pre(vals)
            pc = symex.conj_add((), p)
            if pc is None:
                raise symex.SymexError("empty precondition")
        if shape and shape.pre:
            pc = symex.conj_add(pc, shape.pre(free))
            if pc is None:
                raise symex.SymexError("empty precondition")
        r, mem, pc2 = ex.run(self.fn, args, pc=pc)
        rets = self.rets(ex, f, r, mem, so)
        return Prep(self, ex, vals, rets, pc, pc2, free, shape)

    def rets(self, ex, f, r, mem, so):
        if so is not None:
            return [ex.get_cell(dict(mem[so.id]), 0, self.sret, so)]
        out = self.flatten(ex, r)
        for o, w in zip(self.__dict__.pop("outs", []), self.outw):
            out.append(ex.get_cell(dict(ex.cells_of(mem, o)), 0, w // 8, o))
        return out

    def flatten(self, ex, r):
        if r is None:
            return []
        if isinstance(r, tuple):
            return [ex.join_vec(r)]
        if isinstance(r, list):
            return [x for e in r for x in self.flatten(ex, e)]
        if isinstance(r, symex.Ptr):
            return [ex.ptr_int(r)]
        return [r]

    def ncases(self):
        if self.shapes:
            return len(self.shapes) + (1 if self.cover else 0)
        return len(self.cases) + (1 if self.cover else 0) if self.cases else 1

    def case_term(self, p, ci):
        if not self.cases or self.shapes:
            return t.TRUE
        if ci < len(self.cases):
            return self.cases[ci](p.vals)
        return t.ands([t.not_(c(p.vals)) for c in self.cases])

    # -------------------------------------------------------------- deciding one case
    def covered(self, timeout):
        """every input belongs to some shape"""
        f = self.code.func(self.fn)
        a = [t.var("a%d" % i, w) for i, w in enumerate(argw(ty) for nm, ty, at in f.params if argw(ty) is not None)]
        q = t.not_(t.ors([s.member(a) for s in self.shapes]))
        if self.pre:
            q = t.and_(q, self.pre(a))
        r, env = solve.check(q, timeout, engine=self.engine)
        if r == "unsat":
            return {"status": "unsat"}
        return {"status": "unknown", "why": "shapes do not cover every input (%s)" % r}

    def decide(self, ci, timeout):
        if self.reduced:
            return {"status": "unsat", "by": "same result as a function decided by this check"}
        if self.shapes:
            if ci == len(self.shapes):
                return self.covered(timeout)
            sh = self.shapes[ci]
            self.__dict__.update(sh.over)
            timeout = sh.over.get("timeout", timeout)
            p = self.prep(sh)
        else:
            p = self.prep()
        c = self.case_term(p, ci)
        sub = None
        if self.tighten:
            sub = self.tighten(p, ci)
        good = self.good(p)
        bad = t.and_(p.done(), t.not_(good))
        obl = t.ors([o.cond for o in p.ex.obl if o.kind != "unwind"]) if self.obls else t.FALSE
        unw = t.ors([o.cond for o in p.ex.obl if o.kind == "unwind"])
        pre = t.ands(p.pc)
        notes = []
        if unw is not t.FALSE:
            r, env = solve.check(t.ands([pre, c, unw]), timeout, engine=self.engine)
            if r != "unsat":
                return {"status": "unknown", "why": "loop bound %d not sufficient (%s)" % (self.max_iter, r)}
        if self.poly and obl is t.FALSE and p.done() is t.TRUE:
            if self.poly_equal(p):
                return {"status": "unsat", "by": "polynomial normal form"}
        if self.via is not None:
            d = self.via(self, p)
            if d is not None:
                known = t.FALSE
                if isinstance(d, tuple):
                    d, known = d            # what the other function's own goals rule out
                v = t.and_(t.or_(d, obl), t.not_(known))
                if self.sweep and cms.lib():
                    smp = self.draw(p, t.and_(pre, c), self.gen)
                    for depth, ov in ((6, True), (6, False), (None, False)):
                        (v,), _ = sweep.sweep([v], t.and_(pre, c), smp, **dict(self.sweep, depth=depth, onlyvars=ov))
                        if v is t.FALSE or depth and not any(n.op in ("udiv", "urem", "mul") for n in t.topo([v])) and solve.check(t.ands([pre, c, v]), 3, engine=self.engine)[0] == "unsat":
                            v = t.FALSE
                            break
                r, _ = solve.check(t.ands([pre, c, v]), min(timeout, 20), engine=self.engine)
                if r == "unsat":
                    return {"status": "unsat", "by": "same result as a function decided by this check"}
        cs = self.cases[ci] if self.cases and ci < len(self.cases) else None
        if isinstance(cs, Case) and cs.timeout:
            timeout = cs.timeout
        facts = []
        sw = (cs.sweep if isinstance(cs, Case) else None) or self.sweep
        if sw and cms.lib():
            gen = (cs.gen if isinstance(cs, Case) else None) or self.gen
            asm = t.and_(pre, c)
            smp = self.draw(p, asm, gen)
            if cs is not None and cs.via is not None:
                d = cs.via(self, p)
                if d is not None:
                    (d, o), st = sweep.sweep([d, obl], asm, smp or [], **sw)
                    r, _ = solve.check(t.ands([asm, t.or_(d, o)]), min(timeout, 60), engine=self.engine)
                    if r == "unsat":
                        return {"status": "unsat", "by": "same result as another case"}
            if smp:
                hints = cs.hints(p.vals) if isinstance(cs, Case) and cs.hints else self.hints(p.vals) if self.hints else []
                res, st = sweep.sweep(hints + [bad, obl], asm, smp, **sw)
                bad, obl = res[-2:]
                facts = [h for h, x in zip(hints, res) if h.w == 1 and x is t.TRUE]
        if self.lin and lin.check(t.ands([pre, c, t.or_(bad, obl)] + facts), self.lin) == "unsat":
            return {"status": "unsat", "by": "linear integer abstraction"}
        if self.absm is not None:
            for kw in self.absm if isinstance(self.absm, list) else [self.absm]:
                r, _ = solve.check(mulabs.abstract(t.ands([pre, c, t.or_(bad, obl)]), **kw), timeout, engine=self.engine)
                if r == "unsat":
                    return {"status": "unsat", "by": "product abstraction"}
        for viol, kind in ((t.or_(bad, obl), "all"), (bad, "functional")):
            q = t.ands([pre, c, viol])
            r, env = "unknown", None
            for fx in self.fix(p) if self.lin and self.fix else []:
                env = lin.find(q, fx)
                if env is not None:
                    r = "sat"
                    break
            for h in (self.hunt or []) if r != "sat" and (self.absm is not None or self.poly or self.lin) else []:
                r, env = solve.check(t.and_(q, h(p.vals)), self.hunt_timeout, engine=self.engine)
                if r == "sat":
                    break
                r = "unknown"
            if r != "sat" and self.concrete:
                r, env = solve.check(q, timeout, engine=self.engine)
            if r == "unsat":
                if notes:
                    return {"status": "unknown", "why": notes[0]}
                return {"status": "unsat"}
            if r == "unknown":
                return {"status": "unknown", "why": "solver time-out %ds" % timeout}
            rep = self.replay(p, env)
            if rep["confirmed"]:
                return {"status": "violation", "replay": rep}
            notes.append("counterexample not reproduced natively: %s" % rep["text"])
            if obl is t.FALSE:
                break
        return {"status": "unknown", "why": notes[0]}

    def decide_whole(self):
        p = self.prep()
        d = self.via(self, p)
        if d is None:
            return False
        obl = t.ors([o.cond for o in p.ex.obl])
        asm = t.ands(p.pc)
        bad = t.or_(d, obl)
        if cms.lib():
            (bad,), _ = sweep.sweep([bad], asm, self.draw(p, asm, self.gen), limit=1, wide=3, budget=40)
        r, _ = solve.check(t.ands([asm, bad]), 30, engine=self.engine)
        return r == "unsat"

    def draw(self, p, asm, gen, n=48):
        rnd = random.Random(self.name)
        out, tries = [], 0
        ws = [v.w for v in p.free]
        while len(out) < n and tries < 40 * n:
            tries += 1
            vs = gen(rnd) if gen else [interesting(rnd, w) for w in ws]
            if vs is None:
                continue
            e = {v.val: x for v, x in zip(p.free, vs)}
            if t.evaluate([asm], e, ufs=lambda *a: 0)[0]:
                out.append(e)
        return out

    def good(self, p):
        return self.ok(p.vals, p.rets)

    def poly_equal(self, p):
        """result equals the specification by integer polynomial identity, confirmed by z3"""
        x, y = p.rets[0], self.poly(p.vals)
        same, n, d = poly.equal_mod(x, y)
        return same and poly.confirm(n, x, y, d)

    def replay(self, p, env):
        vals = t.evaluate(p.vals, {v.val: env.get(v.val, 0) for v in p.free})
        text = "%s(%s)" % (self.fn, ", ".join("0x%x" % v for v in vals))
        if not self.nat:
            return self.replay_term(p, env, text)
        got = self.run_native(vals)
        if got is None:
            return {"confirmed": True, "text": text + " crashes", "inputs": ["0x%x" % v for v in vals]}
        cargs = [t.const(v, x.w) for v, x in zip(vals, p.vals)]
        good = self.ok(cargs, [t.const(g, x.w) for g, x in zip(got, p.rets)])
        good = bool(t.evaluate([good], {})[0])
        text += " = %s" % ", ".join("0x%x" % g for g in got)
        want = self.expected(p, cargs)
        if want:
            text += " (specified: %s)" % want
        return {"confirmed": not good, "text": text, "inputs": ["0x%x" % v for v in vals]}

    def replay_term(self, p, env, text):
        return {"confirmed": True, "text": text}

    def expected(self, p, cargs):
        w = getattr(self.ok, "want", None)
        if w is None:
            return None
        try:
            r = w(cargs)
            return "0x%x" % t.evaluate([r], {})[0]
        except Exception:
            return None

    def run_native(self, vals):
        return self.run_native_many([vals])[0]

    def native_fn(self):
        f = self.code.func(self.fn)
        bufs = {}
        for i, (nm, ty, at) in enumerate(f.params):
            if argw(ty) is None:
                bufs[nm] = 64
        return f, self.code.native(self.fn, bufs)

    def run_native_many(self, lst):
        f, n = self.native_fn()
        full = []
        for vals in lst:
            it = iter(vals)
            full.append([bytes(64) if argw(ty) is None else next(it) for nm, ty, at in f.params])
        out = []
        for r in n.call_many(full):
            if r is None:
                out.append(None)
                continue
            v, bufs = r
            res = [] if v is None else v if isinstance(v, list) else [v]
            pb = [b for (nm, ty, at), b in zip(f.params, bufs) if argw(ty) is None]
            if self.sret:
                res = [int.from_bytes(pb[0][:self.sret], "little")]
                pb = pb[1:]
            res = res + [int.from_bytes(b[:w // 8], "little") for b, w in zip(pb, self.outw)]
            out.append(res)
        return out

    # -------------------------------------------------------------- translator validation
    def validate(self, n, seed):
        """(inputs compared, mismatch text or None, sample)"""
        rnd = random.Random("%s %s" % (seed, self.name))
        if self.fold:
            return self.validate_each(n, rnd)
        p = self.prep(rnd.choice(self.shapes) if self.shapes else None)
        envs = []
        tries = 0
        pre = t.ands(p.pc)
        gen = self.samples or (lambda rnd, ws: [interesting(rnd, w) for w in ws])
        while len(envs) < n and tries < 60 * n:
            tries += 1
            vs = gen(rnd, [v.w for v in p.free])
            e = {v.val: x for v, x in zip(p.free, vs)}
            if t.evaluate([pre], e)[0]:
                envs.append(e)
        if not envs:
            return 0, None, None
        inp = [t.evaluate(p.vals, e) for e in envs]
        nat = self.run_native_many(inp)
        done = p.done()
        cnt = 0
        for e, g in zip(envs, nat):
            ev = t.evaluate([done] + p.rets, e)
            if g is None or not ev[0]:
                if (g is None) != (not ev[0]):
                    return cnt, "model and native disagree on termination for %s" % e, None
                continue
            cnt += 1
            for a, b, x in zip(ev[1:], g, p.rets):
                b &= (1 << x.w) - 1
                if a != b and not self.nan_equal(x.w, a, b):
                    e2 = t.evaluate([done] + p.rets, e, None, default=0x5a5a5a5a)
                    if e2[1:] != ev[1:]:
                        continue      # depends on an undefined value
                    return cnt, "model gives 0x%x, native 0x%x for %s" % (a, b, e), None
        return cnt, None, "%s(%s) = %s" % (self.fn, ", ".join("0x%x" % v for v in inp[0]),
                                            ", ".join("0x%x" % x for x in nat[0]) if nat[0] else "crash")

    def validate_each(self, n, rnd):
        """as validate, executing the model once per input on constants"""
        ws = [w for w in (argw(ty) for nm, ty, at in self.code.func(self.fn).params) if w is not None]
        inp = []
        for _ in range(60 * n):
            vs = [interesting(rnd, w) for w in ws]
            if len(inp) < n and (self.pre is None or self.pre([t.const(x, w) for x, w in zip(vs, ws)]) is t.TRUE):
                inp.append(vs)
        if not inp:
            return 0, None, None
        nat = self.run_native_many(inp)
        fold, self.fold = self.fold, False
        try:
            cnt = 0
            for vs, g in zip(inp, nat):
                p = self.encode(Shape([], lambda v: [t.const(x, w) for x, w in zip(vs, ws)], None))
                if (g is None) != (p.done() is not t.TRUE):
                    return cnt, "model and native disagree on termination for %s" % vs, None
                if g is None:
                    continue
                if not all(x.is_const for x in p.rets):
                    continue
                cnt += 1
                for x, b in zip(p.rets, g):
                    b &= (1 << x.w) - 1
                    if x.val != b and not self.nan_equal(x.w, x.val, b):
                        return cnt, "model gives 0x%x, native 0x%x for %s" % (x.val, b, vs), None
        finally:
            self.fold = fold
        return cnt, None, "%s(%s) = %s" % (self.fn, ", ".join("0x%x" % v for v in inp[0]),
                                            ", ".join("0x%x" % x for x in nat[0]) if nat[0] else "crash")

    def nan_equal(self, w, a, b):
        f = fp.BYW.get(w)
        return f is not None and fp.decode(f, a)[0] == "nan" and fp.decode(f, b)[0] == "nan"


class Prep:
    def __init__(self, goal, ex, vals, rets, pc, pc2, free, shape=None):
        self.goal, self.ex, self.vals, self.rets, self.pc, self.pc2 = goal, ex, vals, rets, pc, pc2
        self.free, self.shape = free, shape

    def done(self):
        return t.FALSE if self.pc2 is None else t.ands(self.pc2)


def interesting(rnd, w):
    k = rnd.randrange(8)
    if k == 0:
        return rnd.choice([0, 1, (1 << w) - 1, 1 << (w - 1), (1 << (w - 1)) - 1])
    if w == 1:
        return rnd.getrandbits(1)
    if k == 1:
        return (1 << rnd.randrange(w)) & ((1 << w) - 1)
    if k == 2:
        return ((1 << w) - 1) >> rnd.randrange(w)
    if k == 3:
        x = 0
        while x < (1 << w):
            x = (x << rnd.randrange(1, w)) | rnd.getrandbits(3) | (1 << rnd.randrange(w))
        return x & ((1 << w) - 1)
    if k == 4:
        return rnd.getrandbits(rnd.randrange(1, w + 1))
    if k == 5 and w in fp.BYW:
        # exponent near the middle of the range
        f = fp.BYW[w]
        e = f.bias + rnd.randrange(-2 * f.sb, 2 * f.sb)
        e = min(max(e, 0), (1 << f.eb) - 1)
        return rnd.getrandbits(1) << (w - 1) | e << f.sb | rnd.getrandbits(f.sb)
    return rnd.getrandbits(w)


# -------------------------------------------------------------------- running

class Check:
    def __init__(self, pid, tier, seed=1, budget=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.goals = []
        self.t0 = time.time()
        self.budget = budget or (560 if tier == "quick" else 3 * 3600)
        self.assumptions = []
        self.bounds = []
        self.outside = []
        self.same = []
        self.setup_errors = []
        self.known = load_known(pid)
        self.jobs = int(os.environ.get("VF_JOBS", "8"))
        self.quick = tier == "quick"

    def add(self, g):
        self.goals.append(g)
        return g

    def note_error(self, what):
        self.setup_errors.append(what)
        print("UNDECIDED: %s" % what)

    def dedupe(self):
        """drops goals whose function has literally the same IR as that of an earlier goal of another build;
        several goals on one function of one build are different questions and count as first, second, ..."""
        seen, keep, nth = {}, [], {}
        self.same = []
        for g in self.goals:
            k = g.key() if hasattr(g, "key") else None
            if k is not None:
                n = nth[g.code.key, k] = nth.get((g.code.key, k), -1) + 1
                k = (k, n)
            if k is not None and k in seen:
                self.same.append("%s: same IR as %s" % (g.name, seen[k]))
                continue
            if k is not None:
                seen[k] = g.name
            keep.append(g)
        self.goals = keep

    def run(self):
        solve.reset_stats()
        self.dedupe()
        solve.scratch_dir()
        nval = 24 if self.quick else 400
        items = []
        for gi, g in enumerate(self.goals):
            if getattr(g, "nat", True):
                items.append((gi, "validate", nval))
        # the goals expected to take longest start first
        for gi, g in sorted(enumerate(self.goals), key=lambda x: -x[1].timeout):
            for ci in range(g.ncases()):
                items.append((gi, "case", ci))
        goals = self.goals
        seed = self.seed
        pid = os.getpid()

        def work(item):
            gi, kind, x = item
            g = goals[gi]
            tm = time.time()
            try:
                if kind == "validate":
                    r = {"status": "validated", "val": g.validate(x, seed)}
                else:
                    r = g.decide(x, g.timeout)
                if getattr(g, "_prep", None):
                    ex = g._prep.ex
                    r["funcs"] = list(ex.funcs_run)
                    r["loops"] = {"%s %s" % k: v for k, v in ex.loop_iters.items()}
                    r["steps"] = ex.steps
            except (symex.SymexError, build.BuildError, llir.ParseError, solve.ModelMismatch, RecursionError,
                    KeyError, IndexError, AttributeError, AssertionError, TypeError, ValueError, OSError) as e:
                r = {"status": "unknown", "why": "%s: %s" % (type(e).__name__, e), "tb": traceback.format_exc()[-1200:]}
            r["time"] = time.time() - tm
            return r
        items = self.reduce(items)
        res = [None] * len(items)
        stop = False
        viols = []
        sys.stdout.flush()
        for i, r, st in solve.parallel(work, items, jobs=self.jobs, budget=self.budget - (time.time() - self.t0)):
            if isinstance(r, tuple):
                r = {"status": "unknown", "why": r[1], "time": 0}
            res[i] = r
            if os.environ.get("VF_VERBOSE"):
                print(goals[items[i][0]].name, items[i][1:], r["status"], "%.1f" % r["time"], r.get("why", "")[:300],
                      r.get("val", ("", ""))[1] or "", flush=True)
                if "tb" in r and os.environ["VF_VERBOSE"] == "2":
                    print(r["tb"])
            if r["status"] == "violation":
                if self.is_known(goals[items[i][0]], r["replay"]):
                    r["status"] = "known"
                    continue
                viols.append((goals[items[i][0]], r["replay"]))
                break
        return self.finish(items, res, viols)

    def reduce(self, items):
        """goals with a whole-space reduction that holds need no case split"""
        todo = [g for g in self.goals if getattr(g, "one", False) and g.cases]

        def work(g):
            try:
                return g.decide_whole()
            except (symex.SymexError, llir.ParseError, solve.ModelMismatch) as e:
                return False
        for i, r, st in solve.parallel(work, todo, jobs=self.jobs, budget=100):
            if r is True:
                todo[i].cases = None
                todo[i].reduced = True
        keep = []
        for it in items:
            g = self.goals[it[0]]
            if it[1] == "case" and g.reduced and it[2] > 0:
                continue
            keep.append(it)
        return keep

    def is_known(self, g, rep):
        for k in self.known:
            if k["goal"] == g.name and k.get("inputs") in (None, rep.get("inputs")):
                return True
        return False

    def finish(self, items, res, viols):
        und, dec, funcs, loops, vals, samples = [], 0, set(), {}, 0, []
        byg = {}
        for it, r in zip(items, res):
            g = self.goals[it[0]]
            e = byg.setdefault(it[0], {"goal": g.name, "cases": 0, "decided": 0, "time_s": 0.0})
            if r is None:
                if it[1] == "case":
                    e["cases"] += 1
                und.append("%s case %s: not reached within the time budget" % (g.name, it[2]))
                continue
            e["time_s"] += r["time"]
            funcs.update(r.get("funcs", ()))
            for k, v in r.get("loops", {}).items():
                loops[k] = max(loops.get(k, 0), v)
            if it[1] == "validate":
                if r["status"] == "validated":
                    c, bad, s = r["val"]
                    vals += c
                    e["native_runs_compared"] = c
                    if s and len(samples) < 12:
                        samples.append(s)
                    if bad:
                        und.append("%s: translator validation failed: %s" % (g.name, bad))
                        e["invalid"] = True
                else:
                    und.append("%s: %s" % (g.name, r.get("why")))
                    e["invalid"] = True
                continue
            e["cases"] += 1
            if r["status"] in ("unsat", "known"):
                e["decided"] += 1
                dec += 1
            elif r["status"] != "violation":
                und.append("%s case %s: %s" % (g.name, it[2], r.get("why", r["status"])))
        for i, e in byg.items():
            e["time_s"] = round(e["time_s"], 2)
            if self.goals[i].bounds:
                e["bounds"] = self.goals[i].bounds
        ncase = sum(1 for it in items if it[1] == "case")
        full = sum(1 for e in byg.values() if e["cases"] and e["decided"] == e["cases"] and not e.get("invalid"))
        st = solve.STATS
        cov = {
            "explanation": "Symbolic execution of the compiled LLVM IR of the listed functions; each goal states, as a bit-vector "
                           "formula over all inputs inside its bounds, that some input violates the property; the solver showed "
                           "the decided ones unsatisfiable.",
            "goals": len(self.goals), "goals_fully_decided": full,
            "obligations": ncase, "discharged": dec,
            "queries": st["queries"], "unsat": st["unsat"], "sat": st["sat"], "unknown": st["unknown"],
            "trivially_simplified": st["trivial"], "solver_time_s": round(st["time"], 2), "cnf_clauses": st["clauses"],
            "solver": st["by"],
            "functions_encoded": sorted(x.lstrip("@") for x in funcs),
            "loop_unrollings": loops,
            "native_runs_compared_with_model": vals,
            "samples": samples,
            "bounds": self.bounds, "outside_bounds": self.outside,
            "goal_results": list(byg.values()),
            "same_ir_decided_once": self.same,
            "undecided": und + self.setup_errors,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions + COMMON, "wall_s": round(time.time() - self.t0, 2), "violations": len(viols)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for u in (und + self.setup_errors)[:20]:
            print("UNDECIDED: %s" % u[:400])
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        print("%s: %d goals, %d/%d cases discharged, %d queries, solver %.1fs, wall %.1fs" % (
            self.pid, len(self.goals), dec, ncase, st["queries"], st["time"], time.time() - self.t0))
        if viols:
            d = os.path.join(EVID, "replay")
            os.makedirs(d, exist_ok=True)
            for n, (g, rep) in enumerate(viols):
                path = os.path.join(d, "%s.json" % self.pid)
                with open(path, "w") as f:
                    json.dump({"property": self.pid, "goal": g.name, "function": g.fn, "replay": rep}, f, indent=1)
                print("violation: %s: %s" % (g.name, rep["text"]))
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        if dec == 0:
            print("ERROR: nothing was decided")
            return 2
        return 0


COMMON = [
    "the LLVM back end and linker translate the emitted IR faithfully",
    "integer flags nuw/nsw/exact and fast-math style metadata in the IR are ignored (arithmetic wraps); poison and undef become unconstrained values",
    "NaN payloads and signs are not compared unless stated",
]


def load_known(pid):
    p = os.path.join(build.VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid:
                    out.append(d)
    return out


def want(spec):
    """acceptance predicate 'result equals spec(args)'"""
    def ok(a, r):
        return t.eq(r[0], spec(a))
    ok.want = spec
    return ok


def want_f(f, spec):
    """acceptance predicate for a float result: equal bits, or both NaN"""
    def ok(a, r):
        return fp.same_t(f, r[0], spec(a))
    ok.want = spec
    return ok

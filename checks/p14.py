"""P14: atomics emulated on ARM targets without native ones, under interference"""
import re
from vf import check, solve, symex, terms as t
from vf.symex import SymexError

TGTS = ["armv5te-unknown-linux-gnueabi", "thumbv6-none-eabi"]
RETRIES = 3
KUSER_CMPXCHG = 0xffff0fc0
KUSER_BARRIER = 0xffff0fa0

lt = lambda f: lambda a, b: t.ite(f(a, b), a, b)
OPS = {"add": t.add, "sub": t.sub, "and": t.and_, "or": t.or_, "xor": t.xor, "nand": lambda a, b: t.not_(t.and_(a, b)),
       "max": lt(lambda a, b: t.slt(b, a)), "min": lt(t.slt), "umax": lt(lambda a, b: t.ult(b, a)), "umin": lt(t.ult)}


def routines():
    """(name, width, kind, operation, returns the new value)"""
    for n in (1, 2, 4):
        w = 8 * n
        for k, op in OPS.items():
            yield "__sync_fetch_and_%s_%d" % (k, n), w, "rmw", op, False
        for k in ("add", "sub", "and", "or", "xor", "nand"):
            yield "__sync_%s_and_fetch_%d" % (k, n), w, "rmw", OPS[k], True
        yield "__sync_lock_test_and_set_%d" % n, w, "rmw", lambda a, b: b, False
        yield "__sync_val_compare_and_swap_%d" % n, w, "cas", None, False


class World:
    """the shared memory: every access finds whatever other threads left there"""

    def __init__(self):
        self.n = 0
        self.loads = []      # (guard, address, value)
        self.swaps = []      # (guard, address, old, new)
        self.assume = []
        self.calls = {}

    def fresh(self, w, what="m"):
        self.n += 1
        return t.var("%s%d" % (what, self.n), w)

    def load(self, ex, st, addr, n):
        v = self.fresh(8 * n)
        self.loads.append((t.ands(st.pc), addr, v))
        return v

    def call(self, ex, st, off, vals):
        if not off.is_const:
            raise SymexError("call through a computed address")
        if off.val == KUSER_BARRIER:
            return None
        if off.val != KUSER_CMPXCHG:
            raise SymexError("call to 0x%x" % off.val)
        old, new, p = vals
        p = ex.ptr_int(p) if isinstance(p, symex.Ptr) else p
        # success: the word held the expected value at that instant
        k = sum(1 for s in self.swaps)
        ok = self.fresh(1, "s") if k < RETRIES else t.TRUE
        self.swaps.append((t.and_(t.ands(st.pc), ok), p, old, new))
        return t.ite(ok, t.const(0, 32), t.const(1, 32))

    # ------------------------------------------------------ inline assembly
    def asm(self, ex, st, ins, tys, vals):
        tmpl, cons = ins.a[0][1], ins.a[0][2]
        cs = [c for c in cons.split(",") if not c.startswith("~")]
        no = sum(c.startswith("=") for c in cs)
        regs = {}
        for i, (c, ty, v) in enumerate(zip(cs[no:], tys, vals)):
            v = ex.ptr_int(v) if isinstance(v, symex.Ptr) else v
            if v.w < 32:
                v = t.concat(self.fresh(32 - v.w, "g"), v)      # the rest of the register is arbitrary
            regs[int(c) if c.isdigit() else no + i] = v
        lines, labels = [], {}
        for l in re.split(r"\\0A|\n|;", tmpl):
            l = l.strip()
            if re.fullmatch(r"\d+:", l):
                labels.setdefault(l[:-1], []).append(len(lines))
            elif l:
                lines.append(l)
        base = t.ands(st.pc)
        ends, todo = [], [(0, t.TRUE, regs, None, None, 0)]
        while todo:
            at, pc, rg, flag, mon, fails = todo.pop()
            while at < len(lines):
                m = re.fullmatch(r"(\w+)\s*(.*)", lines[at])
                mn, o = m.group(1), [x.strip() for x in m.group(2).split(",")]
                reg = lambda s: int(re.fullmatch(r"\$\{?(\d+)\}?", s).group(1))
                val = lambda s: t.const(int(s[1:], 0), 32) if s[0] == "#" else rg[reg(s)]
                adr = lambda s: rg[reg(s.strip("[]"))]
                at += 1
                if mn == "mcr" or mn in ("dmb", "nop"):
                    continue
                ld = re.fullmatch(r"ldr(ex)?(b|h)?", mn)
                sx = re.fullmatch(r"strex(b|h)?", mn)
                if ld:
                    w = {"b": 8, "h": 16, None: 32}[ld.group(2)]
                    v = self.fresh(w)
                    rg = dict(rg)
                    rg[reg(o[0])] = t.zext(v, 32)
                    self.loads.append((t.and_(base, pc), adr(o[1]), v))
                    if ld.group(1):
                        mon = (w, adr(o[1]), v)
                elif sx:
                    w = {"b": 8, "h": 16, None: 32}[sx.group(1)]
                    r2 = dict(rg)
                    new = t.trunc(val(o[1]), w)
                    ok = t.FALSE
                    if mon and mon[0] == w:
                        ok = self.fresh(1, "s") if fails < RETRIES else t.TRUE
                        ok = t.and_(ok, t.eq(mon[1], adr(o[2])))
                        self.swaps.append((t.ands([base, pc, ok]), adr(o[2]), mon[2], new))
                    r2[reg(o[0])] = t.zext(t.not_(ok), 32)
                    rg, mon, fails = r2, None, fails + 1
                    if fails > RETRIES + 1:
                        raise SymexError("exclusive store never succeeds")
                elif mn == "cmp":
                    flag = t.eq(val(o[0]), val(o[1]))
                elif mn in ("beq", "bne", "b"):
                    d = re.fullmatch(r"(\d+)([fb])", o[0])
                    c = [x for x in labels[d.group(1)] if (x >= at if d.group(2) == "f" else x < at)]
                    to = min(c) if d.group(2) == "f" else max(c)
                    g = t.TRUE if mn == "b" else flag if mn == "beq" else t.not_(flag)
                    if t.and_(pc, g) is not t.FALSE:
                        todo.append((to, t.and_(pc, g), rg, flag, mon, fails))
                    pc = t.and_(pc, t.not_(g))
                    if pc is t.FALSE:
                        break
                else:
                    raise SymexError("instruction " + lines[at - 1])
            if pc is not t.FALSE:
                ends.append((pc, rg))
        if no == 0:
            return None
        if ins.ty[0] == "struct":
            ws = [check.argw(e) for e in ins.ty[1]]
        else:
            ws = [check.argw(ins.ty)]
        outs = []
        for i, w in enumerate(ws):
            v = None
            for pc, rg in ends:
                x = t.trunc(rg.get(i, t.const(0, 32)), w)
                v = x if v is None else t.ite(pc, x, v)
            outs.append(v)
        return outs if ins.ty[0] == "struct" else outs[0]


class Emulated:
    nat, timeout, bounds, cases, reduced = False, 40, None, None, False

    def __init__(self, code, fn, w, kind, op, new):
        self.code, self.fn, self.w, self.kind, self.op, self.new = code, fn, w, kind, op, new
        self.name = "%s [%s]" % (fn, code.key)
        self._prep = None

    def ncases(self):
        return 1

    def decide(self, ci, timeout):
        wd = World()
        ex = symex.Exec(self.code.mods, max_iter=RETRIES + 1, asm=wd.asm)
        ex.hooks.update(absload=wd.load, abscall=wd.call)
        w = self.w
        ptr = t.var("p", 32)
        vals = [t.var("v%d" % i, w) for i in range(2 if self.kind == "cas" else 1)]
        pre = t.is_zero(t.and_(ptr, t.const(w // 8 - 1, 32)))
        pc = symex.conj_add((), pre) if pre is not t.TRUE else ()
        r, mem, pc2 = ex.run(self.fn, [symex.Ptr([(t.TRUE, None, ptr)])] + vals, pc=pc)
        if pc2 is None:
            return {"status": "unknown", "why": "does not return"}
        done = t.ands(pc2)
        bad = t.ors([o.cond for o in ex.obl if o.kind != "unwind"])
        q = t.ands([pre, t.or_(bad, t.and_(done, t.not_(self.spec(wd, ptr, vals, r))))])
        st, env = solve.check(q, timeout)
        if st == "unsat":
            # and it does return in some schedule
            st, env = solve.check(t.and_(pre, done), timeout)
            if st != "sat":
                return {"status": "unknown", "why": "no schedule returns"}
            return {"status": "unsat", "funcs": list(ex.funcs_run)}
        if st != "sat":
            return {"status": "unknown", "why": "solver time-out"}
        e = {v.val: env.get(v.val, 0) for v in t.variables([q, ptr, r] + vals)}
        ev = lambda x: t.evaluate([x], {v.val: env.get(v.val, 0) for v in t.variables([x])}, ufs=lambda *a: 0)[0]
        hist = ["load of %d bits at 0x%x finds 0x%x" % (v.w, ev(a), ev(v)) for g, a, v in wd.loads if ev(g)]
        hist += ["atomic replacement at 0x%x of 0x%x by 0x%x" % (ev(a), ev(o), ev(n)) for g, a, o, n in wd.swaps if ev(g)]
        text = "%s(0x%x, %s) returns 0x%x after: %s" % (self.fn, ev(ptr), ", ".join("0x%x" % ev(v) for v in vals), ev(r), "; ".join(hist))
        ok = bool(t.evaluate([q], e, ufs=lambda *a: 0)[0])
        return {"status": "violation" if ok else "unknown", "why": "model does not satisfy the query",
                "replay": {"confirmed": ok, "text": text, "inputs": ["0x%x" % ev(v) for v in [ptr] + vals], "schedule": hist}}

    def part(self, ptr, addr, word):
        """(operand inside the accessed word, its bit position) and the condition that it lies inside"""
        w = self.w
        off = t.sub(ptr, addr)
        inside = t.ule(off, t.const((word.w - w) // 8, 32)) if word.w >= w else t.FALSE
        sh = t.resize(t.shl_c(off, 3), word.w)
        return t.resize(t.lshr(word, sh), w), sh, inside

    def spec(self, wd, ptr, vals, r):
        w = self.w
        none = t.TRUE
        each = []
        gs = [g for g, a, o, n in wd.swaps]
        for i, (g, a, o, n) in enumerate(wd.swaps):
            x, sh, inside = self.part(ptr, a, o)
            new = vals[1] if self.kind == "cas" else self.op(x, vals[0])
            z = lambda v: t.shl(t.resize(v, o.w), sh)
            want = t.or_(t.and_(o, t.not_(z(t.const(t.mask(w), w)))), z(new))
            c = [inside, t.eq(n, want), t.eq(r, new if self.new else x)]
            if self.kind == "cas":
                c.append(t.eq(x, vals[0]))
            c += [t.not_(h) for j, h in enumerate(gs) if j != i]
            each.append(t.or_(t.not_(g), t.ands(c)))
            none = t.and_(none, t.not_(g))
        # without a replacement: only a comparison that failed, returning a value that was seen
        if self.kind == "cas":
            seen = []
            for g, a, v in wd.loads:
                x, sh, inside = self.part(ptr, a, v)
                seen.append(t.ands([g, inside, t.eq(r, x), t.ne(x, vals[0])]))
            each.append(t.or_(t.not_(none), t.ors(seen)))
        else:
            each.append(t.not_(none))
        return t.ands(each)


def goals(ck):
    ck.bounds += ["all operand values, every position inside the word, every value other threads may leave in memory before each access, "
                  "up to %d failing replacements" % RETRIES]
    ck.outside += ["more than %d consecutive failures (each retry starts from the same program point)" % RETRIES,
                   "memory ordering"]
    ck.assumptions += ["the kernel helper and the exclusive store replace the word only if it holds the expected value at that instant; "
                       "both may fail for any reason",
                       "counterexamples are replayed by evaluating the executed path, there being no ARM processor"]
    for tg in TGTS:
        c = check.cross(tg)
        for fn, w, kind, op, new in routines():
            if c.func(fn):
                ck.add(Emulated(c, fn, w, kind, op, new))
            else:
                ck.note_error("%s is not defined for %s" % (fn, tg))

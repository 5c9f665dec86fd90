"""P29: AArch64 outlined atomics, from the assembled machine code"""
from vf import a64, check, solve, terms as t

TGT = "aarch64-unknown-linux-gnu"
RETRIES = 3
ORD = {"relax": (False, False), "acq": (True, False), "rel": (False, True), "acq_rel": (True, True)}


class Atomic:
    """one routine: every path performs exactly the named operation"""
    nat, timeout, bounds, cases = False, 30, None, None
    reduced = False

    def __init__(self, syms, op, size, order):
        self.fn = "__aarch64_%s%d_%s" % (op, size, order)
        self.name = "%s [%s]" % (self.fn, TGT)
        self.syms, self.op, self.size, self.order = syms, op, size, order
        self._prep = None

    def ncases(self):
        return 1

    def decide(self, ci, timeout):
        code = self.syms[self.fn]
        w = 8 * self.size
        regs = {i: t.var("x%d" % i, 64) for i in range(31)}
        regs["sp"] = t.var("sp", 64)
        # arguments, the bits above the operand width being arbitrary
        pair = lambda i: t.concat(regs[i + 1], regs[i])
        if self.size == 16:
            vals, addr = [pair(0), pair(2)], regs[4]
        elif self.op == "cas":
            vals, addr = [t.trunc(regs[0], w), t.trunc(regs[1], w)], regs[2]
        else:
            vals, addr = [t.trunc(regs[0], w)], regs[1]
        run = a64.Run(code, addr, RETRIES)
        ends = run.go(dict(regs), t.is_zero(t.and_(addr, t.const(self.size - 1, 64))))
        self.info = (len(ends), run.cut)
        if not ends:
            return {"status": "unknown", "why": "no path returns"}
        for st in ends:
            ret = t.trunc(st.regs[0], w) if self.size < 16 else t.concat(st.regs[1], st.regs[0])
            q = t.and_(st.pc, t.not_(self.spec(st, vals, addr, ret, w)))
            r, env = solve.check(q, timeout)
            if r == "sat":
                ev = t.evaluate([st.pc, q] + vals + [ret], {v.val: env.get(v.val, 0) for v in t.variables([q] + vals + [ret])}, ufs=lambda *a: 0)
                text = "%s: operands %s, returns 0x%x after %s" % (
                    self.fn, ", ".join("0x%x" % v for v in ev[2:-1]), ev[-1], "; ".join(show(e, env) for e in st.events) or "no access")
                return {"status": "violation", "replay": {"confirmed": bool(ev[1]), "text": text, "inputs": ["0x%x" % v for v in ev[2:-1]],
                                                          "schedule": [show(e, env) for e in st.events]}}
            if r != "unsat":
                return {"status": "unknown", "why": "solver time-out"}
        return {"status": "unsat", "funcs": ["@" + self.fn]}

    def spec(self, st, vals, addr, ret, w):
        acq, rel = ORD[self.order]
        here = t.ands([t.and_(t.eq(e[2], addr), t.TRUE if e[1] == w else t.FALSE) for e in st.events])
        writes = [e for e in st.events if e[0] in ("rmw", "store")]
        if any(e[0] == "store" for e in writes) or len(writes) > 1:
            return t.FALSE
        if writes:
            e = writes[0]
            order = t.TRUE if e[5] >= acq and e[6] >= rel else t.FALSE
            new = vals[1] if self.op == "cas" else a64.OPS[self.op](e[3], vals[0]) if e[3].w == vals[0].w else None
            if new is None or e[4].w != new.w:
                return t.FALSE
            c = t.ands([here, order, t.eq(e[4], new), t.eq(ret, e[3])])
            return t.and_(c, t.eq(e[3], vals[0])) if self.op == "cas" else c
        loads = [e for e in st.events if e[0] == "load"]
        if self.op != "cas" or not loads:
            return t.FALSE
        e = loads[-1]                        # comparison failed: nothing written, the value seen is returned
        return t.ands([here, t.TRUE if e[5] >= acq else t.FALSE, t.ne(e[3], vals[0]), t.eq(ret, e[3])]) if e[3].w == w else t.FALSE


def show(e, env):
    v = lambda x: "-" if x is None else "0x%x" % t.evaluate([x], {y.val: env.get(y.val, 0) for y in t.variables([x])}, ufs=lambda *a: 0)[0]
    return "%s of %d bits, found %s%s%s%s" % (e[0], e[1], v(e[3]), ", wrote " + v(e[4]) if e[4] is not None else "",
                                            ", acquire" if e[5] else "", ", release" if e[6] else "")


def goals(ck):
    ck.bounds += ["all operand values, all values other processors may leave in the operand before each access, both dispatch paths, "
                  "up to %d failing store-exclusives" % RETRIES]
    ck.outside += ["more than %d consecutive failures of the exclusive store (each retry starts from the same program point)" % RETRIES,
                   "tearing of a 16-byte exclusive load whose comparison fails (not single-copy atomic before LSE2; taken as atomic)"]
    ck.assumptions += ["the instruction semantics of vf/a64.py; a store-exclusive succeeds only if the operand still holds the value of the "
                       "matching load-exclusive", "counterexamples are replayed by evaluating the executed path, there being no AArch64 processor"]
    c = check.cross(TGT)
    syms = a64.disassemble(c.lls[0])
    for op in ("cas", "swp", "ldadd", "ldclr", "ldeor", "ldset"):
        for size in (1, 2, 4, 8) + ((16,) if op == "cas" else ()):
            for order in ORD:
                g = Atomic(syms, op, size, order)
                if g.fn in syms:
                    ck.add(g)
                else:
                    ck.note_error("%s is not defined" % g.fn)

"""P15: the entry points of the ARM run-time ABI"""
from vf import a64, arm, check, fp, solve, symex, terms as t
from vf.check import Goal
from vf.mem import G, Buf, Layout, MemGoal
from vf.symex import SymexError
from checks.p12 import byte, copy_access, copy_ok, inside, within

TGTS = ["thumbv6m-none-eabi", "armv5te-unknown-linux-gnueabi"]
# helper -> operation, from the run-time ABI for the Arm architecture
SAME = {
    "fadd": "__addsf3", "dadd": "__adddf3", "fsub": "__subsf3", "dsub": "__subdf3", "fmul": "__mulsf3", "dmul": "__muldf3",
    "fdiv": "__divsf3", "ddiv": "__divdf3", "f2d": "__extendsfdf2", "d2f": "__truncdfsf2", "h2f": "__extendhfsf2",
    "f2h": "__truncsfhf2", "d2h": "__truncdfhf2", "i2f": "__floatsisf", "i2d": "__floatsidf", "l2f": "__floatdisf",
    "l2d": "__floatdidf", "ui2f": "__floatunsisf", "ui2d": "__floatunsidf", "ul2f": "__floatundisf", "ul2d": "__floatundidf",
    "f2iz": "__fixsfsi", "d2iz": "__fixdfsi", "f2lz": "__fixsfdi", "d2lz": "__fixdfdi", "f2uiz": "__fixunssfsi",
    "d2uiz": "__fixunsdfsi", "f2ulz": "__fixunssfdi", "d2ulz": "__fixunsdfdi", "lmul": "__muldi3", "llsl": "__ashldi3",
    "llsr": "__lshrdi3", "lasr": "__ashrdi3", "idiv": "__divsi3", "uidiv": "__udivsi3", "fcmpun": "__unordsf2", "dcmpun": "__unorddf2",
}
REL = {"eq": fp.feq, "lt": fp.flt, "gt": lambda f, a, b: fp.flt(f, b, a),
       "le": lambda f, a, b: t.or_(fp.flt(f, a, b), fp.feq(f, a, b)), "ge": lambda f, a, b: t.or_(fp.flt(f, b, a), fp.feq(f, a, b))}


def agrees(code, ref, pre=None):
    def ok(a, r):
        ex = symex.Exec(code.mods)
        v, mem, pc = ex.run(ref, list(a), pc=symex.conj_add((), pre(a)) or () if pre else ())
        # values neither result depends on
        un = lambda x: sorted((y for y in t.variables([x]) if y.val.startswith("poison")), key=lambda y: y.id)
        mp = {x.id: y for x, y in zip(un(v), un(r[0]))}
        if mp:
            v, = t.substitute([v], mp)
        return t.eq(r[0], v)
    return ok


def truth(f, k):
    def ok(a, r):
        return t.eq(r[0], t.zext(REL[k](f, a[0], a[1]), r[0].w))
    return ok


class Trampoline:
    """one division helper: quotient and remainder in the documented registers, everything else preserved"""
    nat, timeout, bounds, cases, reduced = False, 60, None, None, False

    def __init__(self, tgt, syms, fn):
        self.fn, self.syms, self.tgt = fn, syms, tgt
        self.name = "%s [%s]" % (fn, tgt)
        self._prep = None

    def ncases(self):
        return 1

    def decide(self, ci, timeout):
        q, ops = None, []
        wide = self.fn in ("__aeabi_uldivmod", "__aeabi_ldivmod")
        signed = not self.fn.startswith("__aeabi_u")
        quo = lambda s, a, b: t.uf("%sdiv%d" % ("s" if s else "u", a.w), [a, b], a.w)
        rest = lambda s, a, b: t.sub(a, t.mul(quo(s, a, b), b))

        def div32(s, withrem):
            def call(run):
                a, b = run.regs[0], run.regs[1]
                if withrem:
                    run.store(run.regs[2], rest(s, a, b))
                return {0: quo(s, a, b)}
            return call

        def div64(s, withrem):
            def call(run):
                a, b = t.concat(run.regs[1], run.regs[0]), t.concat(run.regs[3], run.regs[2])
                if withrem:
                    p = run.load(run.regs[13])
                    if run.addr(p) % 8:
                        raise arm.Fault("misaligned pointer to the remainder")
                    v = rest(s, a, b)
                    run.store(p, t.trunc(v, 32))
                    run.store(t.add(p, t.const(4, 32)), t.extract(v, 63, 32))
                v = quo(s, a, b)
                return {0: t.trunc(v, 32), 1: t.extract(v, 63, 32)}
            return call
        callees = {"__udivmodsi4": div32(False, True), "__divmodsi4": div32(True, True), "__udivmoddi4": div64(False, True),
                   "__divmoddi4": div64(True, True), "__divsi3": div32(True, False), "__aeabi_idiv": div32(True, False),
                   "__udivsi3": div32(False, False), "__aeabi_uidiv": div32(False, False), "__udivdi3": div64(False, False),
                   "__divdi3": div64(True, False)}
        run = arm.Run(self.syms[self.fn], callees, old=self.tgt.startswith(("armv4", "armv5")))
        s = run.start
        try:
            back = run.go()
        except arm.Fault as e:
            return {"status": "violation", "replay": {"confirmed": True, "text": "%s: %s" % (self.fn, e), "inputs": []}}
        if wide:
            a, b = t.concat(s[1], s[0]), t.concat(s[3], s[2])
            want = [quo(signed, a, b), rest(signed, a, b)]
            got = [t.concat(run.regs[1], run.regs[0]), t.concat(run.regs[3], run.regs[2])]
        else:
            want = [quo(signed, s[0], s[1]), rest(signed, s[0], s[1])]
            got = [run.regs[0], run.regs[1]]
        ok = t.ands([t.eq(x, y) for x, y in zip(want, got)] + [t.eq(back, s[14]), t.eq(run.regs[13], s[13])] +
                    [t.eq(run.regs[i], s[i]) for i in range(4, 12)])
        st, env = solve.check(t.not_(ok), timeout)
        if st == "unsat":
            return {"status": "unsat", "funcs": ["@" + self.fn]}
        if st != "sat":
            return {"status": "unknown", "why": "solver time-out"}
        ev = lambda x: t.evaluate([x], {v.val: env.get(v.val, 0) for v in t.variables([x])},
                                  ufs=lambda n, a, w: real(n, a, w))[0]
        bad = [("quotient", want[0], got[0]), ("remainder", want[1], got[1]), ("return address", s[14], back),
               ("stack pointer", s[13], run.regs[13])] + [("r%d" % i, s[i], run.regs[i]) for i in range(4, 12)]
        # operands for which the difference shows with real division
        for i, (x, y) in enumerate([(7, 3), (0xfffffff9, 3), (100, 7), (0x123456789abcdef, 0x1234567)]):
            env.update({"r0": x & t.mask(32), "r1": (x >> 32 if wide else y) & t.mask(32), "r2": y & t.mask(32), "r3": y >> 32 & t.mask(32)})
            for k in range(4, 12):
                env["r%d" % k] = 0x1000 + k
            for v in t.variables(got + [back]):
                if v.val not in env:
                    env[v.val] = 0xdead0000 + len(env)
            for what, w_, g_ in bad:
                if ev(w_) != ev(g_):
                    text = "%s(0x%x, 0x%x): %s 0x%x, expected 0x%x" % (self.fn, x, y, what, ev(g_), ev(w_))
                    return {"status": "violation", "replay": {"confirmed": True, "text": text, "inputs": ["0x%x" % x, "0x%x" % y]}}
        return {"status": "unknown", "why": "the difference does not show"}


def real(name, args, w):
    a, b = args
    if b == 0:
        return 0
    if name.startswith("s"):
        sg = lambda v: v - (1 << w) if v >> (w - 1) else v
        a, b = sg(a), sg(b)
        q = abs(a) // abs(b)
        return (q if (a < 0) == (b < 0) else -q) & t.mask(w)
    return a // b


def set_ok(const):
    def ok(v, r, lay):
        n, m = v[0], v[-1]
        c = t.const(0, 8) if const else t.extract(v[1], 7, 0)
        return t.ands([t.eq(byte(r[0], i), t.ite(within(i, G, n), c, byte(m, i))) for i in range(lay.bufs[0].size)])
    return ok


def memory(ck, c):
    N = 19 if ck.quick else 27
    z = N + 2 * G
    short = lambda v, lay: t.ule(v[0], t.const(N, v[0].w))
    cp = copy_ok(lambda v: v[0])
    copied = lambda v, r, lay: cp(v, [t.const(0, 32)] + list(r), lay)
    for suf, als in (("", (0, 1, 2, 3)), ("4", (0,)), ("8", (0,))):
        al = als if suf or not ck.quick else (0, 1, 3)
        two = [Layout([Buf("dest", a, z), Buf("src", b, z)], [(0, G), (1, G)]) for a in al for b in al]
        acc = lambda lay, v: copy_access(lay, v, v[0], 4)
        if c.func("__aeabi_memcpy" + suf):
            ck.add(MemGoal(c, "__aeabi_memcpy" + suf, two, copied, N, acc, pre=short, length=0, timeout=60))
        if c.func("__aeabi_memmove" + suf):
            lays = []
            step = int(suf or 1)
            for a in al:
                for d in (step, 2 * step, 3 * step) + ((4, 5) if step == 1 else ()):
                    lays.append(Layout([Buf("buf", a, z + 24)], [(0, G), (0, G + d)]))
                    near = lambda v, d=d: t.ult(t.const(d, v[0].w), v[0])
                    if step == 1:
                        lays.append(Layout([Buf("buf", a, z + 24)], [(0, -G - d - N), (0, -G - N)], near))
            ck.add(MemGoal(c, "__aeabi_memmove" + suf, lays, copied, N, acc, pre=short, length=0, timeout=60))
        one = [Layout([Buf("dest", a, z)], [(0, G)]) for a in al]
        sacc = lambda lay, v: lambda kind, bi, off, k: inside(off, k, t.const(G, v[0].w), v[0])
        for fn, const in (("__aeabi_memset", False), ("__aeabi_memclr", True)):
            if c.func(fn + suf):
                ck.add(MemGoal(c, fn + suf, one, set_ok(const), N, sacc, pre=short, timeout=60))
    ck.bounds += ["memory helpers: lengths up to %d bytes, every alignment the helper accepts%s, overlaps by up to 5 bytes or 3 units" % (
        N, " (three of the four for the byte-aligned ones)" if ck.quick else "")]


def goals(ck):
    ck.bounds += ["all operand values of the arithmetic, conversion and comparison helpers; all register contents at the division helpers"]
    ck.outside += ["the results of the generic operations themselves (P01-P10)", "longer buffers"]
    ck.assumptions += ["the semantics of the instructions in vf/arm.py; called routines follow the procedure call standard",
                       "what the division helpers call returns the quotient and the matching remainder (P02)"]
    check.host()          # linked into replays
    for tg in TGTS:
        c = check.cross(tg)
        for h, ref in SAME.items():
            fn = "__aeabi_" + h
            if not c.func(fn) or not c.func(ref):
                ck.note_error("%s or %s is not defined for %s" % (fn, ref, tg))
                continue
            nonzero = (lambda a: t.not_(t.is_zero(a[1]))) if h in ("idiv", "uidiv") else None
            ck.add(Goal(c, fn, agrees(c, ref, nonzero), timeout=60, pre=nonzero))
        for k in REL:
            for p, f in (("f", fp.F32), ("d", fp.F64)):
                fn = "__aeabi_%scmp%s" % (p, k)
                if c.func(fn):
                    ck.add(Goal(c, fn, truth(f, k)))
                else:
                    ck.note_error("%s is not defined for %s" % (fn, tg))
        syms = a64.disassemble(c.lls[0], None if tg.startswith("thumb") else "+v6")
        for fn in ("__aeabi_uidivmod", "__aeabi_idivmod", "__aeabi_uldivmod", "__aeabi_ldivmod"):
            if fn in syms:
                ck.add(Trampoline(tg, syms, fn))
            else:
                ck.note_error("%s is not defined for %s" % (fn, tg))
        memory(ck, c)

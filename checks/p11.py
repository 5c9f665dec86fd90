"""P11: integer powers use the base as a factor as often as the exponent says"""
import math
from fractions import Fraction
from vf import check, fp, solve, symex, terms as t
from vf.symex import SymexError

FNS = [("__powisf2", fp.BYNAME["float"]), ("__powidf2", fp.BYNAME["double"]), ("__powitf2", fp.BYNAME["fp128"])]


class Count(symex.ExactFP):
    """floating-point values as powers of the base: the pattern of 1.0 plus k stands for the base to the power k"""

    def __init__(self, f):
        self.one = t.const(f.bias << f.sb, f.w)

    def bin(self, op, f, a, b):
        if op == "fmul":
            return t.sub(t.add(a, b), self.one)
        if op == "fdiv":
            return t.add(t.sub(a, b), self.one)
        raise SymexError("%s in a power" % op)

    def fcmp(self, *a):
        raise SymexError("comparison in a power")

    fma = sqrt = convert = from_int = fcmp


class Power:
    nat, timeout, bounds, cases, reduced = False, 60, None, None, False

    def __init__(self, code, fn, f):
        self.code, self.fn, self.f = code, fn, f
        self.name = "%s [%s]" % (fn, code.key)
        self._prep = None

    def ncases(self):
        return 1

    def decide(self, ci, timeout):
        f = self.f
        sem = Count(f)
        ex = symex.Exec(self.code.mods, fpsem=sem, max_iter=40)
        n = t.var("n", 32)
        r, mem, pc = ex.run(self.fn, [t.add(sem.one, t.const(1, f.w)), n])
        want = t.add(sem.one, t.sext(n, f.w) if f.w > 32 else n)
        bad = t.ors([o.cond for o in ex.obl] + [t.and_(t.ands(pc), t.ne(r, want))])
        st, env = solve.check(bad, timeout)
        for k in (6, 12):       # small exponents show best
            if st == "sat":
                near = t.ult(t.add(n, t.const(1 << k, 32)), t.const(2 << k, 32))
                s2, e2 = solve.check(t.and_(bad, near), timeout)
                if s2 == "sat":
                    env = e2
                    break
        if st == "unsat":
            return {"status": "unsat", "funcs": list(ex.funcs_run)}
        if st != "sat":
            return {"status": "unknown", "why": "solver time-out"}
        e = env.get("n", 0)
        k = t.evaluate([t.sub(r, sem.one)], {"n": e})[0]
        e, k = (x - (1 << w) if x >> (w - 1) else x for x, w in ((e, 32), (k, f.w)))
        text = "%s(x, %d) has x as a factor %d times" % (self.fn, e, k)
        shown = self.show(e)
        return {"status": "violation" if shown else "unknown", "why": text + ", not visible in any result tried",
                "replay": {"confirmed": bool(shown), "text": text + (": " + shown if shown else ""), "inputs": [str(e)]}}

    def show(self, e):
        """a base for which the real code's result is off by more than rounding can explain"""
        f = self.f
        one = f.bias << f.sb
        cand = [one + (1 << f.sb), one | 1 << (f.w - 1), one - (1 << f.sb)]
        m = max(abs(e), 1)
        for c in (1, 8, 40):
            cand.append(one + min(max(1, (c << f.sb) // m), (1 << f.sb) - 1))
        cand = [(x, e & 0xffffffff) for x in cand]
        outs = self.code.native(self.fn).call_many(cand)
        for (x, _), o in zip(cand, outs):
            if o is None:
                continue
            o = o[0]
            r = self.range(val(f, x), e)
            if r is None:
                continue
            v, inf = val(f, o), ((1 << f.eb) - 1) << f.sb
            if v is None:       # an infinity stands beyond every number
                fine = o == inf and r[1] is None or o == inf | 1 << (f.w - 1) and r[0] is None
            else:
                fine = (r[0] is None or r[0] <= v) and (r[1] is None or v <= r[1])
            if not fine:
                return "%s(0x%x, %d) = 0x%x" % (self.fn, x, e, o)
        return None

    def range(self, x, e):
        """an interval that contains every result rounding errors can explain, or None"""
        f = self.f
        m, s = abs(e), 1 if x > 0 or e % 2 == 0 else -1
        size = e * math.log2(abs(x))
        if size > f.emax + 50:
            return (Fraction(2) ** f.emax, None) if s > 0 else (None, -Fraction(2) ** f.emax)
        if size < -f.emax - 50:
            lo, hi = Fraction(0), Fraction(1, 2 ** (f.emax - 1))
        elif abs(size) > f.emax - 50:
            return None
        else:
            eps = Fraction(4 * m + 8, 1 << (f.sb + 1)) if abs(x) not in (Fraction(1, 2), 1, 2) else Fraction(0)
            if eps > Fraction(1, 4) or m > 1 << 22 and abs(x) != 1:
                return None
            prec = 4 * f.sb + 200
            v, b, n = Fraction(1), abs(x), m
            cut = lambda q: q if q.denominator < 1 << prec else Fraction(int(q * (1 << prec)), 1 << prec)
            while n:
                if n & 1:
                    v = cut(v * b)
                b, n = cut(b * b) if n > 1 else b, n >> 1
            v = 1 / v if e < 0 else v
            lo, hi = v * (1 - eps), v * (1 + eps)
        return (lo, hi) if s > 0 else (-hi, -lo)


def val(f, x):
    """the rational value, None for infinities and NaNs"""
    e, m = x >> f.sb & ((1 << f.eb) - 1), x & ((1 << f.sb) - 1)
    if e == (1 << f.eb) - 1:
        return None
    v = Fraction(m + (1 << f.sb if e else 0)) * Fraction(2) ** (max(e, 1) - f.bias - f.sb)
    return -v if x >> (f.w - 1) else v


def goals(ck):
    ck.bounds += ["all 2^32 exponents; the loop is unrolled completely (at most 32 rounds)"]
    ck.outside += ["the rounding of each single multiplication (P05) and division (P06)"]
    ck.assumptions += ["multiplications and divisions are read as adding and subtracting exponents of the base"]
    c = check.host()
    for fn, f in FNS:
        if c.func(fn):
            ck.add(Power(c, fn, f))
        else:
            ck.note_error(fn + " is not defined")

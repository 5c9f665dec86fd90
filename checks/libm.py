"""names of libm functions by format"""
import random
from vf import check, fp, terms as t
from vf.check import Goal

FMT = [("f16", fp.F16), ("f", fp.F32), ("", fp.F64), ("f128", fp.F128)]


def codes(ck):
    return [check.harness("libmh"), check.harness("libmh", ("arch",))]


def each(c, base):
    for suf, f in FMT:
        n = "h_%s%s" % (base, suf)
        if c.func(n):
            yield n, f


def reduction(c):
    """overrides that leave the multi-word argument reduction an uninterpreted function of everything it reads"""
    names = [n[1:].strip('"') for m in c.mods for n in m.funcs if n.rstrip('"').endswith("rem_pio2_large")]

    def make(name):
        f = c.func(name)
        sig = [p[1][0] for p in f.params]
        if sig not in (["ptr", "i", "ptr", "i", "i"], ["ptr", "i", "ptr", "i", "i", "i"]):
            return None

        def call(ex, st, tys, vals, ins):
            x, n, y, e0, prec = vals if len(vals) == 5 else vals[:3] + vals[4:]
            xs = []
            for i in range(n.val if n.is_const else 3):
                v = ex.load_int(st, 8, ex.ptr_add(x, t.const(8 * i, ex.ptrw)), guard=t.ult(t.const(i, n.w), n))
                xs.append(t.ite(t.ult(t.const(i, n.w), n), v, t.const(0, 64)))
            if all(v.is_const for v in xs + [n, e0, prec]):
                r, st.mem, st.pc = ex.run_function(ex.find_func("@" + name), vals, st.pc, st.mem)
                return r
            args = xs + [n, e0, prec]
            for i in range(prec.val + 1 if prec.is_const else 1):
                v = t.uf("reduce%d_%d" % (i, len(xs)), args, 64)
                lim = t.const(0x3fe921fb54442d19, 63)       # at most pi/4 in magnitude
                m = fp.mag(fp.F64, v)
                v = t.concat(fp.sign(fp.F64, v), t.ite(t.ult(lim, m), lim, m))
                ex.store_raw(st, v, ex.ptr_add(y, t.const(8 * i, ex.ptrw)))
            return t.and_(t.uf("reduce_n_%d" % len(xs), args, 32), t.const(7, 32))
        return call
    ov = {n: make(n) for n in names}
    return {n: h for n, h in ov.items() if h}


def last(n):
    """last component of a mangled name, without closures or constants"""
    import re
    m = re.search(r"(\d+)([A-Za-z_]\w*)$", n.strip('@"'))
    while m:
        k, r = m.group(1), m.group(2)
        for cut in range(len(k)):
            if int(k[cut:]) == len(r):
                return r
        m = re.search(r"(\d+)([A-Za-z_]\w*)$", r)
    return n


def primitives(c):
    """overrides: argument reduction, square root and fused multiply-add by their specification"""
    ov = reduction(c)
    for m in c.mods:
        for n in m.funcs:
            nm = n[1:].strip('"')
            if nm in ov or nm.startswith("h_"):
                continue
            l = last(nm)
            if l in ("sqrt", "sqrtf"):
                f = c.func(nm)
                if len(f.params) == 1 and f.params[0][1][0] == "f":
                    ov[nm] = lambda ex, st, tys, vals, ins: ex.fp.sqrt(fp.BYNAME[tys[0][1]], vals[0])
            elif l in ("fma", "fmaf") or "3x863fma" in nm:
                f = c.func(nm)
                if len(f.params) == 3 and all(p[1][0] == "f" for p in f.params):
                    ov[nm] = lambda ex, st, tys, vals, ins: ex.fp.fma(fp.BYNAME[tys[0][1]], *vals)
    return ov


class FGoal(Goal):
    """a goal whose arithmetic is abstracted: the encoding is compared with the compiled code on constants"""
    def validate(self, n, seed):
        return self.validate_each(min(n, 24), random.Random("%s %s" % (seed, self.name)))

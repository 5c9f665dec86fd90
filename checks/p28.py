"""P28: exported math symbols forward to the math library function of the same name"""
import random
import re
from vf import check, fp, symex, terms as t
from vf.check import Goal

TGT = "x86_64-unknown-none"       # exports both groups of symbols


def segments(sym):
    """path segments of a mangled name that is not a generic instance"""
    m = re.match(r"_RNv(?:Nt)*C(?:s[0-9a-zA-Z]*_)?", sym)
    if not m:
        return None
    out, i = [], m.end()
    while i < len(sym) and sym[i].isdigit():
        j = i
        while sym[j].isdigit():
            j += 1
        k = int(sym[i:j])
        if sym[j] == "_":
            j += 1
        out.append(sym[j:j + k])
        i = j + k
    return out


def library_name(sym):
    """name of a math library function, None for anything else"""
    s = segments(sym)
    return s[-1] if s and "libm_math" in s and "generic" not in s and "arch" not in s else None


class Library(dict):
    """every math library function is an uninterpreted function of its arguments"""

    def __bool__(self):
        return True

    def __contains__(self, sym):
        return library_name(sym) is not None

    def __getitem__(self, sym):
        name = library_name(sym)

        def call(ex, st, tys, vals, ins):
            ret = None
            if tys and tys[0] == ("ptr",):
                ret, vals, tys = vals[0], vals[1:], tys[1:]
            if any(isinstance(v, symex.Ptr) for v in vals):
                raise symex.SymexError("%s takes a pointer" % name)
            if ret is not None:
                raise symex.SymexError("%s returns in memory" % name)
            if ins.ty[0] == "struct":
                return [t.uf("%s.%d" % (name, i), vals, check.argw(e)) for i, e in enumerate(ins.ty[1])]
            return t.uf(name, vals, check.argw(ins.ty))
        return call


class Forward(Goal):
    """the exported function equals the library function of its name; replayed against the separately built library"""

    def __init__(self, code, fn, lib, lfn):
        f = code.func(fn)
        ptrs = [nm for nm, ty, at in f.params if check.argw(ty) is None]

        def ok(a, r):
            if not ptrs:
                return t.eq(r[0], t.uf(fn, a, r[0].w))
            return t.and_(t.eq(r[0], t.uf(fn + ".0", a, r[0].w)), t.eq(r[1], t.uf(fn + ".1", a, r[1].w)))
        Goal.__init__(self, code, fn, ok, overrides=Library(), nat=False, outw=(32,) * len(ptrs))
        self.lib, self.lfn = lib, lfn

    def key(self):
        return None

    def replay_term(self, p, env, text):
        """an input on which the compiled exported function and the compiled library function differ"""
        ws = [v.w for v in p.vals]
        rnd = random.Random(self.fn)
        ins = [[env.get(v.val, 0) for v in p.free]] + [[draw(rnd, w) for w in ws] for _ in range(400)]
        other = Goal(self.lib, self.lfn, None, outw=self.outw)
        for x, g, w in zip(ins, self.run_native_many(ins), other.run_native_many(ins)):
            if g is None or w is None:
                continue
            if any(not same(a, b, r.w) for a, b, r in zip(g, w, p.rets)):
                hx = lambda l: ", ".join("0x%x" % v for v in l)
                return {"confirmed": True, "text": "%s(%s) = %s (library function: %s)" % (self.fn, hx(x), hx(g), hx(w)),
                        "inputs": ["0x%x" % v for v in x]}
        return {"confirmed": False, "text": "calls something else, but no differing input found"}


def draw(rnd, w):
    if w in fp.BYW and rnd.random() < .7:
        f = fp.BYW[w]
        if rnd.random() < .3:
            s, inf = rnd.getrandbits(1) << (w - 1), ((1 << f.eb) - 1) << f.sb
            return s | rnd.choice([0, f.bias << f.sb, 1, inf, inf | 1 << (f.sb - 1), inf | 1])
        e = min(max(f.bias + rnd.randrange(-4, 5), 1), (1 << f.eb) - 2)
        return rnd.getrandbits(1) << (w - 1) | e << f.sb | rnd.getrandbits(f.sb)
    if w == 32 and rnd.random() < .5:
        return rnd.randrange(-30, 31) & 0xffffffff
    return check.interesting(rnd, w)


def same(a, b, w):
    f = fp.BYW.get(w)
    nan = lambda x: f and fp.decode(f, x)[0] == "nan"
    m = (1 << w) - 1
    return a & m == b & m or nan(a & m) and nan(b & m)


def goals(ck):
    ck.bounds += ["all arguments of every exported math symbol of a target that exports both groups (%s)" % TGT]
    ck.assumptions += ["the math library functions are uninterpreted functions of their arguments (they have no state); "
                       "both crates compile the same source files"]
    check.host()
    lib = check.harness("libmh")
    c = check.cross(TGT, plain=True)
    for fn in sorted(x[2:] for m in lib.mods for x in (n[1:] for n in m.funcs) if x.startswith("h_")):
        if c.func(fn):
            ck.add(Forward(c, fn, lib, "h_" + fn))

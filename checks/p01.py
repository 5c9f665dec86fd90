"""P01: integer add, subtract, multiply, with and without overflow flag"""
from vf import check, terms as t
from vf.check import Goal, Shape, want
from checks import targets

# name, width, operation, signed
PLAIN = [("__mulsi3", 32), ("__muldi3", 64), ("__multi3", 128)]
FLAG = [("__mulosi4", 32, "mul", True), ("__mulodi4", 64, "mul", True), ("__muloti4", 128, "mul", True),
        ("__rust_i128_addo", 128, "add", True), ("__rust_u128_addo", 128, "add", False), ("__rust_i128_subo", 128, "sub", True),
        ("__rust_u128_subo", 128, "sub", False), ("__rust_i128_mulo", 128, "mul", True), ("__rust_u128_mulo", 128, "mul", False)]
SIMPLE = [("__rust_i128_add", t.add), ("__rust_u128_add", t.add), ("__rust_i128_sub", t.sub), ("__rust_u128_sub", t.sub)]


def flagged(op, signed):
    def ok(a, r):
        x, y = a
        v, of = r
        w = x.w
        ext = t.sext if signed else t.zext
        if op == "mul":
            W = 2 * w
            if signed:
                ax = t.ite(t.bit(x, w - 1), t.neg(x), x)
                ay = t.ite(t.bit(y, w - 1), t.neg(y), y)
                m = t.mul(t.zext(ax, W), t.zext(ay, W))
                neg = t.xor(t.bit(x, w - 1), t.bit(y, w - 1))
                low = t.trunc(m, w)
                val = t.ite(neg, t.neg(low), low)
                lim = t.ite(neg, t.const(1 << (w - 1), W), t.const((1 << (w - 1)) - 1, W))
                over = t.ult(lim, m)
            else:
                m = t.mul(t.zext(x, W), t.zext(y, W))
                val = t.trunc(m, w)
                over = t.nonzero(t.extract(m, W - 1, w))
        else:
            W = w + 2
            s = (t.add if op == "add" else t.sub)(ext(x, W), ext(y, W))
            val = t.trunc(s, w)
            over = t.ne(ext(val, W), s)
        return t.and_(t.eq(v, val), t.eq(of, t.zext(over, of.w)))
    return ok


def sparse(w):
    """refutation only: second operand with few possible bits"""
    out = []
    for lo in range(0, w, max(w // 8, 1)):
        hi = min(lo + 10, w - 1)
        out.append(lambda a, lo=lo, hi=hi: t.is_zero(t.and_(a[1], t.const(~(((1 << (hi - lo + 1)) - 1) << lo), a[1].w))))
    return out


def msb_shapes(w, which):
    """operand `which` by the position of its highest set bit"""
    out = []
    for k in range(-1, w):
        def build(v, k=k):
            if k < 0:
                x = t.const(0, w)
            elif k == 0:
                x = t.const(1, w)
            else:
                x = t.zext(t.concat(t.TRUE, v[1]), w)
            return [x, v[0]] if which == 0 else [v[0], x]

        def inv(a, k=k):
            x, y = a[which], a[1 - which]
            return [y, t.trunc(x, k)] if k > 0 else [y]
        out.append(Shape([w, k] if k > 0 else [w], build, inv))
    return out


def goals(ck):
    ck.bounds += ["every pair of operands"]
    for c in targets.codes(ck, ["thumbv6m-none-eabi", "riscv32i-unknown-none-elf"]):
        for fn, op in SIMPLE:
            if c.func(fn):
                ck.add(Goal(c, fn, want(lambda a, op=op: op(a[0], a[1])), timeout=60, sret=targets.sret(c, fn)))
        for fn, w in PLAIN:
            if c.func(fn):
                sp = lambda a: t.mul(a[0], a[1])
                sh = msb_shapes(w, 0) if c.key.startswith("riscv32i") and w <= 64 else None
                ck.add(Goal(c, fn, want(sp), poly=sp, shapes=sh, hunt=sparse(w), timeout=30, hunt_timeout=20, sret=targets.sret(c, fn)))
        for fn, w, op, sg in FLAG:
            if c.func(fn):
                ab = [dict(limb=w // 2)] if op == "mul" else None
                ck.add(Goal(c, fn, flagged(op, sg), absm=ab, hunt=sparse(w), outw=(32,), timeout=60, hunt_timeout=20,
                            sret=targets.sret(c, fn)))

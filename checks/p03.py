"""P03: shifts, bit counts, byte swaps"""
from vf import check, terms as t
from vf.check import Goal, want

SH = [("__ashlsi3", 32, "l"), ("__ashldi3", 64, "l"), ("__ashlti3", 128, "l"), ("__ashrsi3", 32, "a"),
      ("__ashrdi3", 64, "a"), ("__ashrti3", 128, "a"), ("__lshrsi3", 32, "r"), ("__lshrdi3", 64, "r"), ("__lshrti3", 128, "r")]
CNT = [("__clzsi2", 32, "clz"), ("__clzdi2", 64, "clz"), ("__clzti2", 128, "clz"), ("__ctzsi2", 32, "ctz"),
       ("__ctzdi2", 64, "ctz"), ("__ctzti2", 128, "ctz")]
BS = [("__bswapsi2", 32), ("__bswapdi2", 64), ("__bswapti2", 128)]


def shift(kind, w):
    f = {"l": t.shl, "a": t.ashr, "r": t.lshr}[kind]
    return lambda a: f(a[0], t.resize(a[1], w))


def naive_clz(x, rw):
    r = t.const(x.w, rw)
    for i in range(x.w):
        r = t.ite(t.bit(x, i), t.const(x.w - 1 - i, rw), r)
    return r


def naive_ctz(x, rw):
    r = t.const(x.w, rw)
    for i in reversed(range(x.w)):
        r = t.ite(t.bit(x, i), t.const(i, rw), r)
    return r


def goals(ck):
    ck.bounds += ["shifts: every value, every amount below the width", "bit counts and byte swaps: every value"]
    codes = [check.host(), check.host(False)]
    for tgt in ["thumbv6m-none-eabi", "riscv32i-unknown-none-elf"] + ([] if ck.quick else [
            "i686-unknown-linux-gnu", "aarch64-unknown-linux-gnu", "wasm32-unknown-unknown", "powerpc-unknown-linux-gnu"]):
        try:
            codes.append(check.cross(tgt))
        except Exception as e:
            ck.note_error("%s: %s" % (tgt, str(e)[:300]))
    for c in codes:
        for fn, w, k in SH:
            if c.func(fn):
                ck.add(Goal(c, fn, want(shift(k, w)), pre=lambda a, w=w: t.ult(a[1], t.const(w, a[1].w))))
        for fn, w, k in CNT:
            if c.func(fn):
                nf = naive_clz if k == "clz" else naive_ctz
                rw = c.mods[0].ptrw
                ck.add(Goal(c, fn, want(lambda a, nf=nf, rw=rw: nf(a[0], rw))))
        for fn, w in BS:
            if c.func(fn):
                ck.add(Goal(c, fn, want(lambda a: t.concat(*[t.extract(a[0], 8 * i + 7, 8 * i) for i in range(a[0].w // 8)]))))

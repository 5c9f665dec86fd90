"""P13: memcmp, bcmp and strlen"""
from vf import check, terms as t
from vf.mem import G, Buf, Layout, MemGoal
from checks import targets
from checks.p12 import byte, words


def first_difference(v, lay, N):
    """difference of the first pair of bytes which differ among the first n, as 32 bits"""
    n, a, b = v
    r = t.const(0, 32)
    for i in reversed(range(N)):
        x, y = byte(a, G + i), byte(b, G + i)
        d = t.sub(t.zext(x, 32), t.zext(y, 32))
        r = t.ite(t.and_(t.ult(t.const(i, n.w), n), t.ne(x, y)), d, r)
    return r


def cmp_ok(N, equality):
    def ok(v, r, lay):
        want = first_difference(v, lay, N)
        got = r[0]
        c = [t.eq(t.is_zero(got), t.is_zero(want))]
        if not equality:
            c.append(t.eq(t.extract(got, got.w - 1, got.w - 1), t.extract(want, 31, 31)))
        for i in (0, 1):
            c.append(t.eq(r[1 + i], v[1 + i]))
        return t.ands(c)
    return ok


def len_ok(N):
    def ok(v, r, lay):
        want = t.const(N, r[0].w)
        for i in reversed(range(N)):
            want = t.ite(t.is_zero(byte(v[0], G + i)), t.const(i, r[0].w), want)
        return t.and_(t.eq(r[0], want), t.eq(r[1], v[0]))
    return ok


def read_only(word, length):
    def access(lay, v):
        n = length(v)

        def allowed(kind, bi, off, k):
            if kind != "load":
                return t.FALSE
            return words(off, k, 0x100000 * (bi + 1) + lay.bufs[bi].align, t.const(G, n.w), n, word)
        return allowed
    return access


def goals(ck):
    cs = targets.codes(ck, ["thumbv6m-none-eabi"])
    for c in cs:
        W = c.mods[0].ptrw // 8
        P = 8 * W
        N = 70
        z = N + 2 * G
        fast = c.key == "x86_64"
        pairs = [(0, 0), (1, 0), (3, 6)] if ck.quick else [(a, b) for a in range(W) for b in range(W)]
        for fn in ("memcmp", "bcmp"):
            if c.func(fn):
                lays = [Layout([Buf("s1", a, z), Buf("s2", b, z)], [(0, G), (1, G)]) for a, b in pairs]
                ck.add(MemGoal(c, fn, lays, cmp_ok(N, fn == "bcmp"), N, read_only(W, lambda v: v[0]), length=0,
                               pre=lambda v, lay, N=N: t.ule(v[0], t.const(N, v[0].w)), timeout=100))
        if c.func("strlen"):
            lays = [Layout([Buf("s", a, z)], [(0, G)]) for a in range(16)]

            def upto(v, P=P, N=N):
                """length including the terminator"""
                r = t.const(N + 1, P)
                for i in reversed(range(N)):
                    r = t.ite(t.is_zero(byte(v[0], G + i)), t.const(i + 1, P), r)
                return r
            has = lambda v, lay, N=N: t.ors([t.is_zero(byte(v[0], G + i)) for i in range(N)])
            ck.add(MemGoal(c, "strlen", lays, len_ok(N), N, read_only(16 if fast else W, upto), pre=has, timeout=100))
    ck.bounds += ["lengths 0 to %d, symbolic" % (70), "every contents",
                  "strlen: every alignment modulo 16; memcmp: %s alignments" % ("three pairs of" if ck.quick else "all pairs of")]
    ck.outside += ["longer ranges: the loops repeat the same body"]

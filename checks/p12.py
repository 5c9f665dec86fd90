"""P12: memcpy, memmove, memset"""
from vf import check, terms as t
from vf.mem import G, Buf, Layout, MemGoal
from checks import targets


def byte(v, i):
    return t.extract(v, 8 * i + 7, 8 * i)


def within(i, off, n):
    """byte i belongs to the range of length n at off (or ending at -off)"""
    k = i - off if off >= 0 else -off - 1 - i
    return t.ult(t.const(k, n.w), n) if k >= 0 else t.FALSE


def inside(off, k, lo, n):
    """[off, off + k) lies in [lo, lo + n)"""
    w = n.w + 2
    off, lo, n = (t.zext(x, w) for x in (off, lo, n))
    return t.and_(t.ule(lo, off), t.ule(t.add(off, t.const(k, w)), t.add(lo, n)))


def words(off, k, base, lo, n, word):
    """the access stays within aligned words which hold a byte of [lo, lo + n)"""
    w = n.w + 2
    b, m = t.const(base, w), t.const(~(word - 1) & t.mask(w), w)
    off, lo = t.add(t.zext(off, w), b), t.add(t.zext(lo, w), b)
    first = t.and_(lo, m)
    end = t.and_(t.add(t.add(lo, t.zext(n, w)), t.const(word - 1, w)), m)
    return t.ands([t.not_(t.is_zero(n)), t.ule(first, off), t.ule(t.add(off, t.const(k, w)), end)])


def copy_ok(length):
    def ok(v, r, lay):
        n = length(v)
        (db, do), (sb, so) = lay.ptrs
        m = v[len(v) - len(lay.bufs):]
        fin = r[1:]
        c = [t.is_zero(r[0])]
        dist = abs(so) - abs(do)
        for bi, b in enumerate(lay.bufs):
            for i in range(b.size):
                old = byte(m[bi], i)
                want = old
                if bi == db and 0 <= i + dist < lay.bufs[sb].size:
                    want = t.ite(within(i, do, n), byte(m[sb], i + dist), old)
                c.append(t.eq(byte(fin[bi], i), want))
        return t.ands(c)
    return ok


def copy_access(lay, v, n, word):
    (db, do), (sb, so) = lay.ptrs

    def allowed(kind, bi, off, k):
        c = t.FALSE
        base = 0x100000 * (bi + 1) + lay.bufs[bi].align
        if bi == db:
            c = inside(off, k, lay.start(0, n, n.w), n)
            if kind == "load":
                c = t.or_(c, words(off, k, base, lay.start(0, n, n.w), n, word))
        if bi == sb and kind == "load":
            c = t.or_(c, words(off, k, base, lay.start(1, n, n.w), n, word))
        return c
    return allowed


def set_ok(v, r, lay):
    c, n, m = v[0], v[1], v[2]
    out = [t.is_zero(r[0])]
    for i in range(lay.bufs[0].size):
        out.append(t.eq(byte(r[1], i), t.ite(within(i, G, n), t.extract(c, 7, 0), byte(m, i))))
    return t.ands(out)


def set_access(lay, v, n, word):
    return lambda kind, bi, off, k: inside(off, k, t.const(G, n.w), n)


def goals(ck):
    cs = targets.codes(ck, ["thumbv6m-none-eabi"])
    for c in cs:
        W = c.mods[0].ptrw // 8
        N = (5 * W if W == 8 else 7 * W - 1) + (0 if ck.quick else 2 * W)
        P = 8 * W
        al = range(W)
        short = lambda i: lambda v, lay: t.ule(v[i], t.const(N, v[i].w))
        z = N + 2 * G
        acc = lambda f, i: lambda lay, v: f(lay, v, v[i], W)
        if c.func("memcpy"):
            two = [Layout([Buf("dest", a, z), Buf("src", b, z)], [(0, G), (1, G)]) for a in al for b in al]
            ck.add(MemGoal(c, "memcpy", two, copy_ok(lambda v: v[0]), N, acc(copy_access, 0), pre=short(0), length=0, timeout=60))
        if c.func("memmove"):
            M = N if not ck.quick else 3 * W + 4
            lays = []
            dist = [d for d in range(M + 3) if not ck.quick or d in (0, 1, 2, W - 1, W, W + 1, 2 * W, 2 * W + 3, M - 1, M)]
            for a in al:
                for d in dist:
                    # destination below the source: forward; above it and overlapping: backward
                    lays.append(Layout([Buf("buf", a, z + M)], [(0, G), (0, G + d)]))
                    if d:
                        far = lambda v, d=d: t.ule(v[0], t.const(d, v[0].w))
                        lays.append(Layout([Buf("buf", a, z + M)], [(0, G + d), (0, G)], far))
                        near = lambda v, d=d: t.ult(t.const(d, v[0].w), v[0])
                        if d < M:
                            lays.append(Layout([Buf("buf", a, z + M)], [(0, -G - d - M), (0, -G - M)], near))
            lays += [Layout([Buf("dest", a, z), Buf("src", b, z)], [(0, G), (1, G)]) for a, b in ((1, 2), (0, 3))]
            ck.add(MemGoal(c, "memmove", lays, copy_ok(lambda v: v[0]), N, acc(copy_access, 0), length=0,
                           pre=lambda v, lay, M=M: t.ule(v[0], t.const(M, v[0].w)), timeout=60))
        if c.func("memset"):
            one = [Layout([Buf("dest", a, z)], [(0, G)]) for a in al]
            ck.add(MemGoal(c, "memset", one, set_ok, N, acc(set_access, 1), pre=short(1), timeout=60))
    more = 0 if ck.quick else 2
    ck.bounds += ["lengths 0 to %d bytes with 64-bit words, 0 to %d with 32-bit words (memmove: %s), symbolic" % (
                      40 + 8 * more, 27 + 4 * more, "3 words and 4 bytes" if ck.quick else "the same"),
                  "every alignment of both pointers relative to the word size, one case each",
                  "memmove: distances %s between overlapping ranges, one case each" % (
                      "0, 1, 2, around one word, two words and around the length" if ck.quick else "0 to the length plus 2"),
                  "every contents and fill value, 16 bytes around each buffer watched"]
    ck.outside += ["longer buffers: the word loops repeat the same body"]

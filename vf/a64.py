"""Symbolic execution of AArch64 machine code that accesses one shared operand.

The object code is disassembled; other processors may change the operand before every atomic access, and may make any
store-exclusive fail."""
import os
import re
import subprocess
from . import build
from . import terms as t
from .symex import SymexError


def disassemble(ll, attr=None):
    """{symbol: {address: (mnemonic, operands, relocation symbol or None)}} of the code assembled from an IR file"""
    ob = ll[:-3] + ".o"
    build.run([build.llvm_tool("llc"), "-filetype=obj", ll, "-o", ob], cwd="/")
    out = build.run([build.llvm_tool("llvm-objdump"), "-d", "-r", "--no-show-raw-insn", ob] + (["--mattr=" + attr] if attr else []), cwd="/").stdout
    os.unlink(ob)
    syms, cur, last = {}, None, None
    for l in out.split("\n"):
        m = re.match(r"[0-9a-f]{8,16} <(.+)>:$", l)
        if m:
            cur = syms.setdefault(m.group(1), {})
            continue
        m = re.match(r"\s+([0-9a-f]+):\s+(R_\S+)\s+(\S+)", l)
        if m and cur is not None and last is not None:
            cur[last] = cur[last][:2] + (m.group(3),)
            continue
        m = re.match(r"\s+([0-9a-f]+):\s+(\S+)\s*(.*)$", l)
        if m and cur is not None:
            last = int(m.group(1), 16)
            cur[last] = (m.group(2), m.group(3).strip(), None)
    return syms


def split(s):
    """operands, commas inside brackets kept"""
    out, d, cur = [], 0, ""
    for c in s.split("<")[0]:
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += c == "["
        d -= c == "]"
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class St:
    def __init__(self, pc, regs):
        self.at, self.pc, self.regs = 0, pc, regs
        self.flags = None
        self.mon = None          # (size in bits, address, value, acquire)
        self.events = []         # (kind, size, address, old, new or None, acquire, release)
        self.fails = 0
        self.barrier = False

    def copy(self):
        s = St(self.pc, dict(self.regs))
        s.at, s.flags, s.mon, s.events, s.fails, s.barrier = self.at, self.flags, self.mon, list(self.events), self.fails, self.barrier
        return s


class Run:
    def __init__(self, code, addr, retries=3):
        self.code, self.addr, self.retries = code, addr, retries
        self.n = 0
        self.ends = []
        self.cut = 0

    def fresh(self, what, w):
        self.n += 1
        return t.var("%s%d" % (what, self.n), w)

    # ------------------------------------------------------ registers
    def get(self, st, r):
        if r in ("wzr", "xzr"):
            return t.const(0, 32 if r[0] == "w" else 64)
        m = re.fullmatch(r"([wx])(\d+)|(sp)", r)
        if not m:
            raise SymexError("operand " + r)
        v = st.regs["sp" if m.group(3) else int(m.group(2))]
        return t.trunc(v, 32) if m.group(1) == "w" else v

    def put(self, st, r, v):
        if r in ("wzr", "xzr"):
            return
        m = re.fullmatch(r"([wx])(\d+)", r)
        if not m:
            raise SymexError("destination " + r)
        w = 32 if r[0] == "w" else 64
        st.regs[int(m.group(2))] = t.zext(t.resize(v, w), 64)

    def operand(self, st, s, w):
        if s.startswith("#"):
            return t.const(int(s[1:], 0) & ((1 << w) - 1), w)
        return t.resize(self.get(st, s), w)

    def address(self, st, s):
        m = re.fullmatch(r"\[(\w+)(?:, #(-?\w+))?\]", s)
        if not m:
            raise SymexError("address " + s)
        a = self.get(st, m.group(1))
        return t.add(a, t.const(int(m.group(2) or "0", 0) & t.mask(64), 64))

    # ------------------------------------------------------ conditions
    def cond(self, st, c):
        n, z, cf, v = st.flags
        k = {"eq": z, "ne": t.not_(z), "hs": cf, "cs": cf, "lo": t.not_(cf), "cc": t.not_(cf), "mi": n, "pl": t.not_(n),
             "hi": t.and_(cf, t.not_(z)), "ls": t.or_(t.not_(cf), z), "ge": t.eq(n, v), "lt": t.ne(n, v),
             "gt": t.and_(t.not_(z), t.eq(n, v)), "le": t.or_(z, t.ne(n, v)), "al": t.TRUE}
        if c not in k:
            raise SymexError("condition " + c)
        return k[c]

    def subflags(self, x, y):
        w = x.w
        d = t.sub(x, y)
        sx, sy, sd = t.bit(x, w - 1), t.bit(y, w - 1), t.bit(d, w - 1)
        return (sd, t.is_zero(d), t.uge(x, y), t.and_(t.xor(sx, sy), t.xor(sx, sd)))

    # ------------------------------------------------------ execution
    def go(self, regs, pc=t.TRUE):
        todo = [St(pc, regs)]
        steps = 0
        while todo:
            st = todo.pop()
            while True:
                steps += 1
                if steps > 5000:
                    raise SymexError("too many steps")
                if st.at not in self.code:
                    raise SymexError("runs off its end")
                r = self.step(st)
                if r is None:
                    continue
                todo += r
                break
        return self.ends

    def fork(self, st, c, target, nxt):
        out = []
        for g, at in ((c, target), (t.not_(c), nxt)):
            p = t.and_(st.pc, g)
            if p is not t.FALSE:
                s = st.copy()
                s.pc, s.at = p, at
                out.append(s)
        return out

    def old(self, st, size):
        """value of the operand at an atomic access: whatever was written there last, by anyone"""
        return self.fresh("m", size)

    def step(self, st):
        mn, ops, rel = self.code[st.at]
        o = split(ops)
        nxt = st.at + 4
        st.at = nxt
        if mn in ("nop", "hint", "bti", "isb", "prfm"):
            return None
        if mn == "ret":
            self.ends.append(st)
            return []
        if mn == "b":
            st.at = int(o[0], 16)
            return None
        if mn.startswith("b."):
            return self.fork(st, self.cond(st, mn[2:]), int(o[0], 16), nxt)
        if mn in ("cbz", "cbnz"):
            z = t.is_zero(self.get(st, o[0]))
            return self.fork(st, z if mn == "cbz" else t.not_(z), int(o[1], 16), nxt)
        if mn in ("tbz", "tbnz"):
            b = t.bit(self.get(st, o[0]), int(o[1][1:], 0))
            return self.fork(st, b if mn == "tbnz" else t.not_(b), int(o[2], 16), nxt)
        if mn in ("adrp", "adr"):
            st.regs[int(o[0][1:])] = t.uf("address " + str(rel), (), 64)
            return None
        if mn == "add" and rel:
            self.put(st, o[0], self.get(st, o[1]))
            return None
        if mn in ("mov", "mvn"):
            w = 32 if o[0][0] == "w" else 64
            v = self.operand(st, o[1], w)
            self.put(st, o[0], v if mn == "mov" else t.not_(v))
            return None
        if mn in ("uxtb", "uxth", "sxtb", "sxth", "sxtw"):
            k = {"b": 8, "h": 16, "w": 32}[mn[3]]
            v = t.trunc(self.get(st, o[1]), k)
            w = 32 if o[0][0] == "w" else 64
            self.put(st, o[0], t.zext(v, w) if mn[0] == "u" else t.sext(v, w))
            return None
        if mn in ("add", "sub", "and", "orr", "eor", "bic", "orn", "eon", "lsl", "lsr"):
            w = 32 if o[0][0] == "w" else 64
            x, y = self.get(st, o[1]), self.operand(st, o[2], w)
            if len(o) > 3:
                m = re.fullmatch(r"(lsl|lsr|uxtb|uxth|uxtw)(?: #(\w+))?", o[3])
                if not m:
                    raise SymexError(mn + " " + ops)
                if m.group(1)[0] == "u":
                    y = t.zext(t.trunc(t.resize(y, 64), {"b": 8, "h": 16, "w": 32}[m.group(1)[3]]), 64)
                    y = t.shl_c(t.resize(y, w), int(m.group(2) or "0", 0))
                else:
                    y = (t.shl_c if m.group(1) == "lsl" else t.lshr_c)(y, int(m.group(2), 0))
            f = {"add": t.add, "sub": t.sub, "and": t.and_, "orr": t.or_, "eor": t.xor, "bic": lambda a, b: t.and_(a, t.not_(b)),
                 "orn": lambda a, b: t.or_(a, t.not_(b)), "eon": lambda a, b: t.xor(a, t.not_(b)),
                 "lsl": lambda a, b: t.shl(a, t.and_(b, t.const(w - 1, w))), "lsr": lambda a, b: t.lshr(a, t.and_(b, t.const(w - 1, w)))}[mn]
            self.put(st, o[0], f(x, y))
            return None
        if mn in ("cmp", "subs"):
            i = 1 if mn == "subs" else 0
            x = self.get(st, o[i])
            y = self.operand(st, o[i + 1], x.w)
            if len(o) > i + 2:
                m = re.fullmatch(r"(uxtb|uxth|uxtw|sxtb|sxth)", o[i + 2])
                if not m:
                    raise SymexError(mn + " " + ops)
                y = t.trunc(y, {"b": 8, "h": 16, "w": 32}[m.group(1)[3]])
                y = t.zext(y, x.w) if m.group(1)[0] == "u" else t.sext(y, x.w)
            if i:
                self.put(st, o[0], t.sub(x, y))
            st.flags = self.subflags(x, y)
            return None
        if mn == "ccmp":
            c = self.cond(st, o[3])
            x = self.get(st, o[0])
            fl = self.subflags(x, self.operand(st, o[1], x.w))
            k = int(o[2][1:], 0)
            st.flags = tuple(t.ite(c, a, t.const(k >> i & 1, 1)) for a, i in zip(fl, (3, 2, 1, 0)))
            return None
        if mn in ("csel", "cset"):
            c = self.cond(st, o[-1])
            w = 32 if o[0][0] == "w" else 64
            self.put(st, o[0], t.ite(c, self.get(st, o[1]), self.get(st, o[2])) if mn == "csel" else t.ite(c, t.const(1, w), t.const(0, w)))
            return None
        if mn in ("dmb", "dsb"):
            st.barrier = True
            st.events = [e[:5] + (True,) + e[6:] for e in st.events]
            return None
        if mn == "clrex":
            st.mon = None
            return None
        return self.memory(st, mn, o, rel)

    def memory(self, st, mn, o, rel):
        if rel and mn == "ldrb":
            self.put(st, o[0], t.zext(t.var("flag", 8), 32))
            return None
        m = re.fullmatch(r"ld(a?)x(r|p)(b|h)?", mn)
        if m:
            pair = m.group(2) == "p"
            a = self.address(st, o[-1])
            size = {"b": 8, "h": 16}.get(m.group(3)) or (32 if o[0][0] == "w" else 64)
            v = self.old(st, size * 2 if pair else size)
            self.put(st, o[0], t.trunc(v, size))
            if pair:
                self.put(st, o[1], t.extract(v, 2 * size - 1, size))
            st.mon = (v.w, a, v, bool(m.group(1)))
            st.events.append(("load", v.w, a, v, None, bool(m.group(1)), st.barrier))
            return None
        m = re.fullmatch(r"st(l?)x(r|p)(b|h)?", mn)
        if m:
            pair = m.group(2) == "p"
            a = self.address(st, o[-1])
            size = {"b": 8, "h": 16}.get(m.group(3)) or (32 if o[1][0] == "w" else 64)
            new = t.trunc(t.resize(self.get(st, o[1]), 64), size)
            if pair:
                new = t.concat(t.trunc(t.resize(self.get(st, o[2]), 64), size), new)
            out = []
            if st.mon and st.mon[0] == new.w:
                s = st.copy()
                # the store takes effect only while the operand still holds what the exclusive load saw
                s.events.append(("rmw", new.w, a, s.mon[2], new, s.mon[3], bool(m.group(1)) or s.barrier))
                s.pc = t.and_(s.pc, t.eq(a, s.mon[1]))
                s.mon = None
                self.put(s, o[0], t.const(0, 32))
                if s.pc is not t.FALSE:
                    out.append(s)
            st.fails += 1
            st.mon = None
            if st.fails <= self.retries:
                self.put(st, o[0], t.const(1, 32))
                out.append(st)
            else:
                self.cut += 1
            return out
        m = re.fullmatch(r"cas(p?)(al|a|l)?(b|h)?", mn)
        if m:
            pair = bool(m.group(1))
            a = self.address(st, o[-1])
            size = {"b": 8, "h": 16}.get(m.group(3)) or (32 if o[0][0] == "w" else 64)
            lo = lambda r: t.trunc(t.resize(self.get(st, r), 64), size)
            k = 2 if pair else 1
            exp = t.concat(lo(o[1]), lo(o[0])) if pair else lo(o[0])
            des = t.concat(lo(o[3]), lo(o[2])) if pair else lo(o[1])
            old = self.old(st, exp.w)
            acq, rls = "a" in (m.group(2) or ""), "l" in (m.group(2) or "")
            hit = t.eq(old, exp)
            out = []
            for g, ev in ((hit, ("rmw", old.w, a, old, des, acq, rls)), (t.not_(hit), ("load", old.w, a, old, None, acq, rls))):
                s = st.copy()
                s.pc = t.and_(s.pc, g)
                self.put(s, o[0], t.trunc(old, size))
                if pair:
                    self.put(s, o[1], t.extract(old, 2 * size - 1, size))
                s.events.append(ev)
                if s.pc is not t.FALSE:
                    out.append(s)
            return out
        m = re.fullmatch(r"(swp|ldadd|ldclr|ldeor|ldset)(al|a|l)?(b|h)?", mn)
        if m:
            a = self.address(st, o[-1])
            size = {"b": 8, "h": 16}.get(m.group(3)) or (32 if o[0][0] == "w" else 64)
            v = t.trunc(t.resize(self.get(st, o[0]), 64), size)
            old = self.old(st, size)
            self.put(st, o[1], old)
            st.events.append(("rmw", size, a, old, OPS[m.group(1)](old, v), "a" in (m.group(2) or "") and o[1] not in ("wzr", "xzr"),
                              "l" in (m.group(2) or "")))
            return None
        m = re.fullmatch(r"(st|ld)[lau]?r(b|h)?", mn)
        if m:
            size = {"b": 8, "h": 16}.get(m.group(2)) or (32 if o[0][0] == "w" else 64)
            a = self.address(st, o[-1])
            v = self.fresh("m", size)
            if m.group(1) == "ld":
                self.put(st, o[0], v)
                st.events.append(("load", size, a, v, None, "a" in mn[2:3], st.barrier))
            else:
                st.events.append(("store", size, a, None, t.trunc(t.resize(self.get(st, o[0]), 64), size), False, False))
            return None
        raise SymexError("instruction %s %s" % (mn, ", ".join(o)))


OPS = {"swp": lambda o, v: v, "ldadd": t.add, "ldclr": lambda o, v: t.and_(o, t.not_(v)), "ldeor": t.xor, "ldset": t.or_}

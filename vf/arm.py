"""Symbolic execution of straight-line ARM machine code around calls: registers symbolic, stack at a fixed place"""
import re
from . import terms as t
from .symex import SymexError

SP0 = 0x70000000
ALIAS = {"sp": 13, "lr": 14, "pc": 15, "ip": 12, "fp": 11, "sl": 10, "sb": 9}


def num(r):
    if r in ALIAS:
        return ALIAS[r]
    m = re.fullmatch(r"r(\d+)", r)
    if not m:
        raise SymexError("register " + r)
    return int(m.group(1))


class Fault(Exception):
    """something the architecture or the calling convention forbids"""


class Run:
    """callees: {symbol: function(run)} reading and writing self.regs; old: an architecture before version 6"""

    def __init__(self, code, callees, old=False):
        self.code, self.callees, self.old = code, callees, old
        self.start = [t.var("r%d" % i, 32) for i in range(13)] + [t.const(SP0, 32), t.var("lr", 32)]
        self.regs = dict(enumerate(self.start))
        self.mem = {}
        self.n = 0
        self.calls = []

    def fresh(self, what="u"):
        self.n += 1
        return t.var("%s%d" % (what, self.n), 32)

    def addr(self, x):
        if not x.is_const:
            raise SymexError("access outside the stack")
        if x.val % 4:
            raise Fault("misaligned access at 0x%x" % x.val)
        return x.val

    def load(self, a):
        a = self.addr(a)
        if a >= SP0:
            raise SymexError("reads the caller's frame")
        if a < self.regs[13].val:
            return self.fresh("below")
        return self.mem.setdefault(a, self.fresh("stack"))

    def store(self, a, v):
        a = self.addr(a)
        if a >= SP0:
            raise Fault("writes the caller's frame")
        if a < self.regs[13].val:
            raise Fault("writes below the stack pointer")
        self.mem[a] = v

    def operand(self, o):
        if o.startswith("#"):
            return t.const(int(o[1:], 0), 32)
        return self.regs[num(o)]

    def reglist(self, o):
        out = []
        for x in o.strip("{}").split(","):
            x = x.strip()
            m = re.fullmatch(r"(\w+)-(\w+)", x)
            out += range(num(m.group(1)), num(m.group(2)) + 1) if m else [num(x)]
        return sorted(out)

    def set(self, r, v):
        if r == 13 and (not v.is_const or v.val % 4):
            raise SymexError("stack pointer")
        self.regs[r] = v

    def go(self):
        """runs to the return; the address returned to"""
        for at in sorted(self.code):
            mn, ops, sym = self.code[at]
            ops = re.sub(r"\s*@.*", "", ops)
            o = [x.strip() for x in re.findall(r"\{[^}]*\}|\[[^\]]*\]!?|[^,\s][^,]*", ops)]
            w = mn.split(".")[0]
            c = lambda v: t.const(v, 32)
            if w == "push":
                rs = self.reglist(ops)
                self.set(13, t.sub(self.regs[13], c(4 * len(rs))))
                for i, r in enumerate(rs):
                    self.store(t.add(self.regs[13], c(4 * i)), self.regs[r])
            elif w == "pop":
                rs, base, pc = self.reglist(ops), self.regs[13], None
                vals = [self.load(t.add(base, c(4 * i))) for i in range(len(rs))]
                if 13 in rs:
                    raise SymexError("pop of sp")
                for r, v in zip(rs, vals):
                    if r == 15:
                        pc = v
                    else:
                        self.set(r, v)
                self.set(13, t.add(base, c(4 * len(rs))))
                if pc is not None:
                    return pc
            elif w in ("ldr", "str"):
                m = re.fullmatch(r"\[(\w+)(?:,\s*#(-?\w+))?\](!?)", o[1])
                if not m:
                    raise SymexError("%s %s" % (mn, ops))
                b, off = num(m.group(1)), int(m.group(2) or "0", 0)
                post = int(o[2][1:], 0) if len(o) > 2 else 0
                a = t.add(self.regs[b], c(off & t.mask(32)))
                new = t.add(a, c(post & t.mask(32))) if m.group(3) or len(o) > 2 else None
                if w == "str":
                    v = self.regs[num(o[0])]
                    if new is not None:
                        self.set(b, new)
                    self.store(a, v)
                else:
                    v = self.load(a)
                    if new is not None:
                        self.set(b, new)
                    if o[0] == "pc":
                        return v
                    self.set(num(o[0]), v)
            elif w in ("mov", "movs"):
                self.set(num(o[0]), self.operand(o[1]))
            elif w in ("add", "adds", "sub", "subs", "rsb", "rsbs"):
                a, b = (o[0], o[1]) if len(o) == 2 else (o[1], o[2])
                a, b = self.operand(a), self.operand(b)
                f = t.add if w.startswith("add") else t.sub
                self.set(num(o[0]), f(b, a) if w.startswith("rsb") else f(a, b))
            elif w in ("mul", "muls"):
                a, b = (o[0], o[1]) if len(o) == 2 else (o[1], o[2])
                if self.old and num(o[0]) == num(a):
                    raise Fault("%s %s is unpredictable before version 6" % (mn, ops))
                self.set(num(o[0]), t.mul(self.operand(a), self.operand(b)))
            elif w == "mls":
                self.set(num(o[0]), t.sub(self.operand(o[3]), t.mul(self.operand(o[1]), self.operand(o[2]))))
            elif w in ("bl", "blx"):
                if sym not in self.callees:
                    raise SymexError("call of %s" % sym)
                if self.regs[13].val % 8:
                    raise Fault("stack not 8-byte aligned at the call of " + sym)
                ret = self.callees[sym](self)
                # the callee may use everything the calling convention lets it
                sp = self.regs[13].val
                for a in [a for a in self.mem if a < sp]:
                    del self.mem[a]
                for r in (0, 1, 2, 3, 12, 14):
                    self.regs[r] = ret.get(r) if r in ret else self.fresh("clob")
            elif w == "bx" and o[0] == "lr":
                return self.regs[14]
            elif w == "b" and sym in self.callees:
                ret = self.callees[sym](self)
                for r in (0, 1, 2, 3, 12):
                    self.regs[r] = ret.get(r) if r in ret else self.fresh("clob")
                return self.regs[14]
            elif w == "nop":
                pass
            else:
                raise SymexError("instruction %s %s" % (mn, ops))
        raise SymexError("falls off the end")

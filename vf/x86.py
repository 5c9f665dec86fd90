"""Semantics of the x86 inline assembly used by the memory routines: string instructions, aligned loads, register moves"""
import re
from . import terms as t
from .symex import Ptr, SymexError

REGS = {"rax": "ax", "eax": "ax", "ax": "ax", "al": "ax", "rcx": "cx", "ecx": "cx", "cx": "cx", "rdi": "di", "edi": "di", "di": "di",
        "rsi": "si", "esi": "si", "si": "si", "rdx": "dx", "edx": "dx", "dx": "dx", "rbx": "bx", "ebx": "bx"}
SZ = {"b": 1, "w": 2, "d": 4, "q": 8}


class Snippet:
    def __init__(self, ex, st, ins, vals, limit):
        self.ex, self.st, self.limit = ex, st, limit
        cons = [c for c in ins.a[0][2].split(",") if not c.startswith("~")]
        self.outs = [c.lstrip("=&").strip("{}") for c in cons if c.startswith("=")]
        self.regs, self.ops = {}, {}
        self.df = False
        for i, c in enumerate(cons[len(self.outs):]):
            c = c.strip("{}")
            if c.isdigit():
                r = self.outs[int(c)]
                self.ops[int(c)] = r
            else:
                r = c
            if r in ("r", "x", "q"):
                r = "op%d" % (len(self.outs) + i)
            self.regs[r] = vals[i]
            self.ops[len(self.outs) + i] = r
        for i, o in enumerate(self.outs):
            if o in ("r", "x", "q"):
                self.outs[i] = "op%d" % i
            self.ops[i] = self.outs[i]

    def name(self, x):
        """register of an operand text, and whether only its low 32 bits are meant"""
        m = re.fullmatch(r"\$\{(\d+):([a-z])\}|\$(\d+)", x)
        if m:
            return self.ops[int(m.group(1) or m.group(3))], m.group(2) == "k"
        if x in REGS:
            return REGS[x], x.startswith("e")
        return None, False

    def get(self, x):
        if re.fullmatch(r"-?(0x[0-9a-f]+|\d+)", x):
            return t.const(int(x, 0) & t.mask(64), 64)
        r, low = self.name(x)
        if r is None or r not in self.regs:
            raise SymexError("asm operand %s" % x)
        v = self.regs[r]
        if low:
            v = self.num(v)
            v = t.zext(t.extract(v, 31, 0), 64)
        return v

    def num(self, v):
        return self.ex.ptr_int(v) if isinstance(v, Ptr) else v

    def shift(self, v, off):
        return self.ex.ptr_add(v, off) if isinstance(v, Ptr) else t.add(v, off)

    def ptr(self, v):
        return v if isinstance(v, Ptr) else self.ex.int_ptr(v)

    def rep(self, kind, sz):
        ex, st = self.ex, self.st
        n = self.num(self.regs["cx"])
        step = -sz if self.df else sz
        most = n.val if n.is_const else self.limit // sz + 1
        if not n.is_const:
            ex.oblige("unwind", st, t.ult(t.const(most, 64), n), "string instruction repeats more than %d times" % most)
        for i in range(most):
            g = t.ult(t.const(i, 64), n)
            if g is t.FALSE:
                break
            off = t.const(i * step & t.mask(64), 64)
            d = self.ptr(self.shift(self.regs["di"], off))
            if kind == "movs":
                v = ex.load_int(st, sz, self.ptr(self.shift(self.regs["si"], off)), g, "rep movs")
            else:
                v = t.extract(self.num(self.regs["ax"]), 8 * sz - 1, 0)
            ex.store_raw(st, v, d, "rep " + kind, guard=g)
        tot = t.mul(n, t.const(step & t.mask(64), 64))
        self.regs["di"] = self.shift(self.regs["di"], tot)
        if kind == "movs":
            self.regs["si"] = self.shift(self.regs["si"], tot)
        self.regs["cx"] = t.const(0, 64)

    def step(self, line):
        line = line.strip().lower()
        if line in ("", "nop"):
            return
        if line in ("std", "cld"):
            self.df = line == "std"
            return
        m = re.fullmatch(r"rep (movs|stos)([bwdq])( .*)?", line)
        if m:
            return self.rep(m.group(1), SZ[m.group(2)])
        m = re.fullmatch(r"(add|sub|mov) ([^,\[]+), *([^,\[]+)", line)
        if m:
            op, d, s = m.group(1), m.group(2).strip(), self.get(m.group(3).strip())
            r, low = self.name(d)
            if r is None:
                raise SymexError("asm %r" % line)
            if op == "mov":
                self.regs[r] = t.zext(t.extract(self.num(s), 31, 0), 64) if low else s
                return
            if low:
                raise SymexError("asm %r" % line)
            s = self.num(s)
            self.regs[r] = self.shift(self.regs[r], s if op == "add" else t.neg(s))
            return
        m = re.fullmatch(r"(movdqa|movdqu|mov) ([^,\[]+), *\[([^\]]+)\]", line)
        if m:
            op, d, a = m.groups()
            r, low = self.name(d.strip())
            p = self.ptr(self.get(a.strip()))
            n = 16 if op != "mov" else 4 if low else 8
            if op == "movdqa":
                self.ex.aligned(self.st, p, line, 16)
            v = self.ex.load_int(self.st, n, p, text=line)
            self.regs[r] = t.zext(v, 64) if low else v
            return
        raise SymexError("asm %r" % line)


def handler(limit):
    """for Exec.asm; limit bounds the bytes a string instruction may touch"""
    def asm(ex, st, ins, tys, vals):
        tmpl = ins.a[0][1]
        lines = [l for l in re.split(r"\\0A|\n|;", tmpl)]
        if not any(l.strip() for l in lines) or re.match(r"\s*div ", tmpl):
            return NotImplemented
        s = Snippet(ex, st, ins, vals, limit)
        for l in lines:
            s.step(l)
        if s.df:
            ex.oblige("asm", st, t.TRUE, "direction flag left set")
        rty = ins.ty
        if rty == ("void",):
            return None

        def conv(ty, v):
            if ty[0] == "ptr":
                return s.ptr(v)
            v = s.num(v)
            if ty[0] == "vec":
                return ex.split_vec(ty, v)
            return t.trunc(v, ty[1]) if ty[1] < v.w else v
        if rty[0] == "struct":
            return [conv(ty, s.regs[o]) for ty, o in zip(rty[1], s.outs)]
        return conv(rty, s.regs[s.outs[0]])
    return asm

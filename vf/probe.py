"""Symbolic execution of short x86 assembly routines: registers symbolic, one path per outcome of a branch"""
import re
from . import build, solve, terms as t
from .symex import SymexError

R64 = "rax rbx rcx rdx rsi rdi rbp rsp r8 r9 r10 r11 r12 r13 r14 r15".split()
R32 = "eax ebx ecx edx esi edi ebp esp".split()


def disassemble(obj, want):
    """{name: [(address, mnemonic, [operands])]} for the functions whose name satisfies want"""
    out = build.run([build.llvm_tool("llvm-objdump"), "-d", "-r", "--no-show-raw-insn", "--x86-asm-syntax=intel", obj], cwd="/").stdout
    fns, cur = {}, None
    for l in out.splitlines():
        m = re.match(r"[0-9a-f]+ <(.*)>:$", l)
        if m:
            cur = fns.setdefault(m.group(1), []) if want(m.group(1)) else None
            continue
        m = re.match(r"\s*([0-9a-f]+):\s+(\S+)\s*(.*)$", l)
        if m and cur is not None:
            ops = re.sub(r"\s*<.*>|\s*#.*", "", m.group(3)).strip()
            cur.append((int(m.group(1), 16), m.group(2), [x.strip() for x in ops.split(",")] if ops else []))
    return fns


def canon(x, memo={}):
    """a sum or difference in a normal form: constant plus the other terms in order of creation"""
    def parts(x):
        if x.id in memo and memo[x.id][0] is x:
            return memo[x.id][1]
        if x.is_const:
            r = ({}, x.val)
        elif x.op in ("add", "sub", "neg"):
            r = (dict(parts(x.args[0])[0]), parts(x.args[0])[1])
            k = -1 if x.op == "sub" else 1
            if x.op == "neg":
                r = ({y: -c for y, c in r[0].items()}, -r[1])
            else:
                d, c = parts(x.args[1])
                for y, n in d.items():
                    r[0][y] = r[0].get(y, 0) + k * n
                r = (r[0], r[1] + k * c)
        else:
            r = ({x: 1}, 0)
        memo[x.id] = (x, r)
        return r
    d, c = parts(x)
    r = t.const(c & t.mask(x.w), x.w)
    for y in sorted((y for y in d if d[y] & t.mask(x.w)), key=lambda y: y.id):
        n = d[y] & t.mask(x.w)
        if n == 1:
            r = t.add(r, y)
        elif n == t.mask(x.w):
            r = t.sub(r, y)
        else:
            r = t.add(r, t.mul(y, t.const(n, x.w)))
    memo[r.id] = (r, (d, c))
    return r


def add(x, y):
    return canon(t.add(x, y))


def sub(x, y):
    return canon(t.sub(x, y))


class Path:
    def __init__(self, regs, flags, mem, touch, pc, ip):
        self.regs, self.flags, self.mem, self.touch, self.pc, self.ip = regs, flags, mem, touch, pc, ip

    def copy(self):
        return Path(dict(self.regs), self.flags, list(self.mem), list(self.touch), self.pc, self.ip)


class Run:
    """runs a routine from its entry until it returns; pre bounds the initial registers"""

    def __init__(self, ins, w, pre, limit):
        self.ins, self.w, self.limit = ins, w, limit
        self.at = {a: i for i, (a, m, o) in enumerate(ins)}
        self.names = R64 if w == 64 else R32
        self.sp, self.bp = ("rsp", "rbp") if w == 64 else ("esp", "ebp")
        self.n = w // 8
        self.start = {r: t.var(r, w) for r in self.names}
        self.pre = pre(self.start)
        self.ended = []
        self.cut = []
        todo = [Path(dict(self.start), None, [], [], self.pre, 0)]
        while todo:
            self.run(todo.pop(), todo)

    def c(self, v):
        return t.const(v & t.mask(self.w), self.w)

    def feasible(self, p):
        if p.pc is t.FALSE:
            return False
        return solve.check(p.pc, 20)[0] != "unsat"

    def addr(self, p, x):
        m = re.fullmatch(r"(?:[dq]word ptr )?\[(.*)\]", x)
        if not m:
            return None
        r = self.c(0)
        for sg, tm in re.findall(r"([+-]?)\s*([^\s+-]+)", m.group(1)):
            if tm in p.regs:
                v = p.regs[tm]
            elif re.fullmatch(r"0x[0-9a-f]+|\d+", tm):
                v = self.c(int(tm, 0))
            else:
                raise SymexError("address " + x)
            r = sub(r, v) if sg == "-" else add(r, v)
        return r

    def load(self, p, a):
        p.touch.append(a)
        v = t.uf("mem", [a], self.w)
        for b, x in p.mem:
            v = t.ite(t.eq(a, b), x, v)
        # any value where a store overlaps in part
        off = []
        for b, x in p.mem:
            d = sub(a, b)
            off.append(t.and_(t.ne(d, self.c(0)), t.ult(add(d, self.c(self.n - 1)), self.c(2 * self.n - 1))))
        if off:
            v = t.ite(t.ors(off), t.uf("mixed%d" % len(p.mem), [a], self.w), v)
        return v

    def store(self, p, a, v):
        p.touch.append(a)
        p.mem.append((a, v))

    def get(self, p, x):
        if x in p.regs:
            return p.regs[x]
        if re.fullmatch(r"-?0x[0-9a-f]+|-?\d+", x):
            return self.c(int(x, 0))
        a = self.addr(p, x)
        if a is None:
            raise SymexError("operand " + x)
        return self.load(p, a)

    def put(self, p, x, v):
        if x in p.regs:
            p.regs[x] = v
            return
        a = self.addr(p, x)
        if a is None:
            raise SymexError("operand " + x)
        self.store(p, a, v)

    def cond(self, p, cc):
        if p.flags is None:
            raise SymexError("flags")
        kind, a, b = p.flags
        if kind == "test":
            z = t.eq(t.and_(a, b), self.c(0))
            s = t.extract(t.and_(a, b), self.w - 1, self.w - 1)
            lo = t.FALSE
            lt = s
        else:
            z, lo = t.eq(a, b), t.ult(a, b)
            lt = t.slt(a, b)
        tab = {"e": z, "z": z, "b": lo, "c": lo, "nae": lo, "be": t.or_(lo, z), "na": t.or_(lo, z), "l": lt, "le": t.or_(lt, z)}
        if cc in tab:
            return tab[cc]
        neg = {"ne": "e", "nz": "z", "ae": "b", "nb": "b", "nc": "b", "a": "be", "nbe": "be", "ge": "l", "g": "le", "nl": "l", "nle": "le"}
        return t.not_(tab[neg[cc]])

    def run(self, p, todo):
        while True:
            if len(p.touch) > self.limit:
                self.cut.append(p)
                return
            if p.ip >= len(self.ins):
                raise SymexError("runs off the end")
            a, m, o = self.ins[p.ip]
            p.ip += 1
            sp = p.regs[self.sp]
            if m == "push":
                v = self.get(p, o[0])
                p.regs[self.sp] = sub(sp, self.c(self.n))
                self.store(p, p.regs[self.sp], v)
            elif m == "pop":
                v = self.load(p, sp)
                p.regs[self.sp] = add(sp, self.c(self.n))
                self.put(p, o[0], v)
            elif m == "leave":
                p.regs[self.bp], x = self.load(p, p.regs[self.bp]), p.regs[self.bp]
                p.regs[self.sp] = add(x, self.c(self.n))
            elif m == "mov":
                self.put(p, o[0], self.get(p, o[1]))
            elif m == "lea":
                p.regs[o[0]] = self.addr(p, o[1])
            elif m in ("add", "sub", "and", "or", "xor"):
                x, y = self.get(p, o[0]), self.get(p, o[1])
                v = {"add": add, "sub": sub, "and": t.and_, "or": t.or_, "xor": t.xor}[m](x, y)
                self.put(p, o[0], v)
                p.flags = ("cmp", x, y) if m == "sub" else ("test", v, v) if m != "add" else None
            elif m == "cmp":
                p.flags = ("cmp", self.get(p, o[0]), self.get(p, o[1]))
            elif m == "test":
                p.flags = ("test", self.get(p, o[0]), self.get(p, o[1]))
            elif m in ("nop", "nopw", "nopl", "endbr64", "endbr32"):
                pass
            elif m == "jmp" and re.fullmatch(r"0x[0-9a-f]+", o[0]):
                p.ip = self.at[int(o[0], 16)]
            elif m[0] == "j" and re.fullmatch(r"0x[0-9a-f]+", o[0]):
                c = self.cond(p, m[1:])
                q = p.copy()
                q.ip = self.at[int(o[0], 16)]
                q.pc, p.pc = t.and_(p.pc, c), t.and_(p.pc, t.not_(c))
                if self.feasible(q):
                    if not self.feasible(p):
                        p = q
                    else:
                        todo.append(q)
            elif m == "ret" and not o:
                p.to = self.load(p, sp)
                p.regs[self.sp] = add(sp, self.c(self.n))
                self.ended.append(p)
                return
            else:
                raise SymexError("instruction %s %s" % (m, ", ".join(o)))

"""Symbolic execution of LLVM IR with state merging.

Every function is executed block by block over the loop nest of its control flow
graph; states that meet at a block are merged with if-then-else terms, so one run
yields one term per result that covers every path.  Loops are unrolled until the
back edge is infeasible; a loop that is still feasible at the bound leaves an
"unwind" obligation.  Panics, unreachable code, out-of-bounds accesses and violated
assumptions are collected as obligations for the caller to discharge.
"""
import re
from . import terms as t
from . import fp
from . import llir
from .llir import FBITS


class SymexError(Exception):
    pass


class Obj:
    """a memory object; cells live in the state"""
    _n = 0

    def __init__(self, name, size, base, kind, const=False):
        Obj._n += 1
        self.id = Obj._n
        self.name = name
        self.size = size
        self.base = base            # address term
        self.kind = kind            # global alloca func window abs
        self.const = const

    def __repr__(self):
        return "<%s>" % self.name


class Ptr:
    __slots__ = ("cases",)

    def __init__(self, cases):
        self.cases = tuple(cases)   # (guard, obj, off)

    def same(self, o):
        return len(self.cases) == len(o.cases) and all(
            g is g2 and ob is ob2 and of is of2 for (g, ob, of), (g2, ob2, of2) in zip(self.cases, o.cases))


class Obligation:
    def __init__(self, kind, cond, where, text):
        self.kind = kind
        self.cond = cond
        self.where = where
        self.text = text

    def __repr__(self):
        return "%s@%s %s" % (self.kind, self.where, self.text)


class State:
    __slots__ = ("pc", "env", "mem")

    def __init__(self, pc, env, mem):
        self.pc = pc        # tuple of conjunct terms (order kept)
        self.env = env
        self.mem = mem      # obj id -> dict off -> (size, value)

    def pct(self):
        return t.ands(self.pc)


def conj_add(pc, c):
    """pc with c conjoined; None when trivially infeasible"""
    if c.is_const:
        return pc if c.val else None
    if c.op == "and" and c.w == 1:
        pc = conj_add(pc, c.args[0])
        return None if pc is None else conj_add(pc, c.args[1])
    n = t.not_(c)
    for x in pc:
        if x is c:
            return pc
        if x is n or t.contradict(x, c):
            return None
    return pc + (c,)


class ExactFP:
    """floating point instructions with their IEEE meaning"""
    name = "exact"

    def bin(self, op, f, a, b):
        return {"fadd": fp.fadd, "fsub": fp.fsub, "fmul": fp.fmul, "fdiv": fp.fdiv}[op](f, a, b)

    def fma(self, f, a, b, c):
        return fp.fma(f, a, b, c)

    def sqrt(self, f, a):
        return t.uf("sqrt_%s" % f.name, [a], f.w)

    def convert(self, fs, fd, x):
        return fp.convert(fs, fd, x)

    def from_int(self, f, x, signed):
        return fp.from_int(f, x, signed)

    def fcmp(self, f, pred, a, b):
        return fp.fcmp(f, pred, a, b)


class UninterpFP(ExactFP):
    """arithmetic left uninterpreted (comparisons stay exact)"""
    name = "uninterpreted"

    def bin(self, op, f, a, b):
        if op in ("fadd", "fmul") and a.id > b.id:
            a, b = b, a
        return t.uf("%s_%s" % (op, f.name), [a, b], f.w)

    def fma(self, f, a, b, c):
        return t.uf("fma_%s" % f.name, [a, b, c], f.w)

    def convert(self, fs, fd, x):
        if fd.w > fs.w:
            return fp.convert(fs, fd, x)
        return t.uf("cvt_%s_%s" % (fs.name, fd.name), [x], fd.w)

    def from_int(self, f, x, signed):
        if x.w <= f.p:
            return fp.from_int(f, x, signed)
        return t.uf("fromint_%s_%d" % (f.name, int(signed)), [x], f.w)


class Exec:
    def __init__(self, modules, fpsem=None, max_iter=300, feasible=None, overrides=None, asm=None):
        self.modules = modules if isinstance(modules, list) else [modules]
        self.ptrw = self.modules[0].ptrw
        self.big = self.modules[0].big_endian
        self.fp = fpsem or ExactFP()
        self.max_iter = max_iter
        self.feasible = feasible        # callable(term) -> bool, used on loop back edges
        self.overrides = overrides or {}
        self.asm = asm                  # callable(exec, state, instr, args) -> value
        self.obl = []
        self.globals = {}
        self.gobj = {}
        self.nextbase = 0x10000
        self.window = None
        self.mem0 = {}
        self.funcs_run = {}
        self.depth = 0
        self.loop_iters = {}
        self.hooks = {}
        self.stack = []
        self.steps = 0
        self.atomic_load_hook = None
        self.pre_access_hook = None
        self.loop_hook = None
        self.check_align = False
        self.fold = None                # callable(pc, term) -> constant when the term has one value under pc, else the term
        self.offsets = None             # callable(state, guard, offset) -> the values the offset can take, or None

    # ------------------------------------------------------------ objects
    def new_obj(self, name, size, kind, base=None, const=False, align=16):
        if base is None:
            a = max(align, 16)
            self.nextbase = (self.nextbase + a - 1) // a * a
            base = t.const(self.nextbase, self.ptrw)
            self.nextbase += max(size, 16) + 64
        return Obj(name, size, base, kind, const)

    def find_func(self, name):
        for m in self.modules:
            n = m.resolve(name)
            if n in m.funcs:
                return m.funcs[n]
        return None

    def global_ptr(self, name):
        for m in self.modules:
            name = m.resolve(name)
        if name in self.gobj:
            return Ptr([(t.TRUE, self.gobj[name], t.const(0, self.ptrw))])
        if self.find_func(name) is not None or any(name in m.decls for m in self.modules):
            o = self.new_obj(name, 0, "func", const=True)
        else:
            have = [m for m in self.modules if name in m.globals]
            if not have:
                raise SymexError("unknown global %s" % name)
            m = next((m for m in have if m.global_init(name) is not None), have[0])
            gi = m.global_init(name)
            isconst = bool(re.search(r"\bconstant\b", m.globals[name].split('"')[0]))
            if gi is None:
                raise SymexError("external global %s" % name)
            ty, v = gi
            o = self.new_obj(name, m.size(ty), "global", const=isconst)
            self.gobj[name] = o
            cells = {}
            self.init_cells(m, cells, 0, ty, v)
            self.mem0[o.id] = cells
        self.gobj[name] = o
        return Ptr([(t.TRUE, o, t.const(0, self.ptrw))])

    def init_cells(self, m, cells, off, ty, v):
        k = v[0]
        if k in ("zero", "undef"):
            n = m.size(ty)
            for i in range(n):
                cells[off + i] = (1, t.const(0, 8))
        elif k == "bytes":
            for i, b in enumerate(v[1]):
                cells[off + i] = (1, t.const(b, 8))
        elif k == "agg":
            if ty[0] == "struct":
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(m, cells, off + m.offset(ty, i), et, ev)
            else:
                es = m.size(ty[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(m, cells, off + i * es, et, ev)
        else:
            x = self.value(None, ty, v, m)
            self.put_cell(cells, off, x)

    # ------------------------------------------------------------ cells
    def put_cell(self, cells, off, x):
        """overwrite bytes [off, off+n) of cells (mutated) with value x"""
        n = self.ptrw // 8 if isinstance(x, Ptr) else x.w // 8
        # remove / split overlapping cells
        for o in range(off - 63 if off > 63 else 0, off + n):
            c = cells.get(o)
            if c is None:
                continue
            if o + c[0] <= off:
                continue
            if o >= off and o + c[0] <= off + n:
                del cells[o]
                continue
            # partial overlap: split to bytes
            del cells[o]
            for i, b in enumerate(self.to_bytes(c[1])):
                if not off <= o + i < off + n:
                    cells[o + i] = (1, b)
        cells[off] = (n, x)

    def to_bytes(self, x):
        """bytes in memory order"""
        if isinstance(x, Ptr):
            x = self.ptr_int(x)
        n = x.w // 8
        bs = [t.extract(x, 8 * i + 7, 8 * i) for i in range(n)]
        return bs[::-1] if self.big else bs

    def from_bytes(self, bs):
        return t.concat(*(bs if self.big else bs[::-1]))

    def get_cell(self, cells, off, n, obj):
        c = cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        bs = []
        i = off
        while i < off + n:
            c = cells.get(i)
            if c is not None:
                by = [c[1]] if c[0] == 1 else self.to_bytes(c[1])
                take = by[:off + n - i]
                bs += take
                i += len(take)
                continue
            # inside an earlier cell?
            for o in range(i - 1, max(-1, i - 64), -1):
                c = cells.get(o)
                if c is not None:
                    break
            if c is not None and o + c[0] > i:
                by = self.to_bytes(c[1])[i - o:]
                take = by[:off + n - i]
                bs += take
                i += len(take)
            else:
                u = t.fresh("undef", 8)
                cells[i] = (1, u)
                bs.append(u)
                i += 1
        return self.from_bytes(bs)

    def cells_of(self, mem, obj):
        c = mem.get(obj.id)
        if c is None:
            c = self.mem0.get(obj.id)
            if c is None:
                c = {}
        return c

    # ------------------------------------------------------------ pointers
    def ptr_int(self, p):
        r = None
        for g, o, off in p.cases:
            a = off if o is None else t.add(o.base, off)
            r = a if r is None else t.ite(g, a, r)
        return r

    def int_ptr(self, x):
        if self.window is not None and not (x.is_const):
            return Ptr([(t.TRUE, self.window, t.sub(x, self.window.base))])
        if x.is_const:
            for o in list(self.gobj.values()):
                if o.base.is_const and o.base.val <= x.val <= o.base.val + o.size and o.kind != "func":
                    return Ptr([(t.TRUE, o, t.const(x.val - o.base.val, self.ptrw))])
        return Ptr([(t.TRUE, None, x)])

    def ptr_add(self, p, off):
        return Ptr([(g, o, t.add(of, off)) for g, o, of in p.cases])

    def merge_ptr(self, c, a, b):
        if a.same(b):
            return a
        out = []
        for g, o, of in b.cases:
            out.append([t.and_(t.not_(c), g) if g is not t.TRUE else t.not_(c), o, of])
        for g, o, of in a.cases:
            gg = t.and_(c, g)
            for e in out:
                if e[1] is o:
                    e[2] = of if e[2] is of else t.ite(gg, of, e[2])
                    e[0] = t.or_(e[0], gg)
                    break
            else:
                out.append([gg, o, of])
        return Ptr([tuple(e) for e in out if e[0] is not t.FALSE])

    # ------------------------------------------------------------ memory access
    def folded(self, st, x):
        if self.fold is None or x.is_const:
            return x
        return self.fold(st.pct(), x)

    def oblige(self, kind, st, cond, text):
        c = t.and_(st.pct(), cond) if cond is not t.TRUE else st.pct()
        if c is t.FALSE:
            return
        self.obl.append(Obligation(kind, c, self.stack[-1] if self.stack else "?", text))

    def aligned(self, st, p, text, al=None):
        """obligation: the address is a multiple of the alignment the instruction promises"""
        if al is None:
            mm = re.search(r", align (\d+)", text)
            al = int(mm.group(1)) if mm else 1
        if al > 1:
            for g, o, off in p.cases:
                a = off if o is None else t.add(o.base, off)
                bad = t.and_(g, t.not_(t.is_zero(t.extract(a, al.bit_length() - 2, 0))))
                if bad is not t.FALSE:
                    self.oblige("misaligned", st, bad, text)

    def possible_offsets(self, obj, off, n):
        if off.is_const:
            return [off.val]
        # alignment known from trailing constant zero bits
        low = off.args[-1] if off.op == "concat" else None
        step, first = 1, 0
        if low is not None and low.is_const:
            step = 1 << low.w
            first = low.val
        hi = obj.size - n
        return list(range(first, hi + 1, step))

    def load_int(self, st, n, p, guard=t.TRUE, text=""):
        """n bytes as an integer; obligations only where guard holds"""
        r = None
        for g, o, off in p.cases:
            v = self.load_one(st, t.and_(g, guard), o, off, n, text)
            if v is not None:
                v = self.ptr_int(v) if isinstance(v, Ptr) else v
                r = v if r is None else self.merge_val(g, v, r)
        return t.fresh("badload", 8 * n) if r is None else r

    def load(self, st, ty, p, m, text=""):
        n = m.size(ty)
        if ty[0] in ("struct", "array"):
            es = [(ty[1][i], m.offset(ty, i)) for i in range(len(ty[1]))] if ty[0] == "struct" else \
                 [(ty[2], i * m.size(ty[2])) for i in range(ty[1])]
            return [self.load(st, et, self.ptr_add(p, t.const(o, self.ptrw)), m, text) for et, o in es]
        r = None
        for g, o, off in p.cases:
            v = self.load_one(st, g, o, off, n, text)
            if v is None:
                continue
            r = v if r is None else self.merge_val(g, v, r)
        if r is None:
            r = t.fresh("badload", 8 * n)
        if ty[0] == "ptr":
            return r if isinstance(r, Ptr) else self.int_ptr(r)
        if isinstance(r, Ptr):
            r = self.ptr_int(r)
        if ty[0] == "vec":
            return self.split_vec(ty, t.trunc(r, ty[1] * self.lane_w(ty[2])))
        w = FBITS[ty[1]] if ty[0] == "f" else ty[1]
        return t.trunc(r, w) if w < r.w else r

    def lane_w(self, ty):
        if ty[0] == "i":
            return ty[1]
        if ty[0] == "f":
            return FBITS[ty[1]]
        return self.ptrw

    def split_vec(self, ty, x):
        lw = self.lane_w(ty[2])
        n = ty[1]
        ls = [t.extract(x, lw * (i + 1) - 1, lw * i) for i in range(n)]
        return tuple(ls[::-1] if self.big else ls)

    def join_vec(self, v):
        return t.concat(*(v if self.big else v[::-1]))

    def load_one(self, st, g, o, off, n, text):
        if o is None or o.kind == "func":
            h = self.hooks.get("absload")
            if h:
                return h(self, st, off, n)
            self.oblige("oob", st, g, "load through integer address " + text)
            return None
        if self.pre_access_hook:
            self.pre_access_hook(self, st, "load", o, off, n, g)
        cells = self.cells_of(st.mem, o)
        if off.is_const:
            if off.val + n > o.size:
                self.oblige("oob", st, g, "load beyond %s %s" % (o.name, text))
                return None
            return self.get_cell(cells, off.val, n, o)
        found = self.offsets(st, g, off) if self.offsets else None
        if found is not None:
            inside = [a for a in found if a + n <= o.size]
            if len(inside) < len(found):
                bad = t.ors([t.eq(off, t.const(a, off.w)) for a in found if a + n > o.size])
                self.oblige("oob", st, t.and_(g, bad), "load beyond %s %s" % (o.name, text))
            r = None
            for a in inside:
                v = self.get_cell(cells, a, n, o)
                v = self.ptr_int(v) if isinstance(v, Ptr) else v
                r = v if r is None else t.ite(t.eq(off, t.const(a, off.w)), v, r)
            return r
        poss = self.possible_offsets(o, off, n)
        inb = t.ule(off, t.const(o.size - n, self.ptrw)) if o.size >= n else t.FALSE
        bad = t.and_(g, t.not_(inb))
        if bad is not t.FALSE:
            self.oblige("oob", st, bad, "load beyond %s %s" % (o.name, text))
        if not poss:
            return None
        vals = []
        for a in poss:
            v = self.get_cell(cells, a, n, o)
            vals.append(self.ptr_int(v) if isinstance(v, Ptr) else v)
        step = poss[1] - poss[0] if len(poss) > 1 else 1
        k = step.bit_length() - 1
        idx = t.lshr_c(off, k)
        return mux(idx, vals)

    def store(self, st, ty, v, p, m, text=""):
        if ty[0] in ("struct", "array"):
            es = [(ty[1][i], m.offset(ty, i)) for i in range(len(ty[1]))] if ty[0] == "struct" else \
                 [(ty[2], i * m.size(ty[2])) for i in range(ty[1])]
            for (et, o), x in zip(es, v):
                self.store(st, et, x, self.ptr_add(p, t.const(o, self.ptrw)), m, text)
            return
        if ty[0] == "vec":
            v = self.join_vec(v)
        if not isinstance(v, Ptr):
            n = (v.w + 7) // 8
            if v.w % 8:
                v = t.zext(v, n * 8)
        self.store_raw(st, v, p, text)

    def store_raw(self, st, v, p, text="", guard=None):
        n = self.ptrw // 8 if isinstance(v, Ptr) else v.w // 8
        single = len(p.cases) == 1 and guard is None
        for g, o, off in p.cases:
            if guard is not None:
                g = t.and_(g, guard)
            if o is None or o.kind == "func":
                self.oblige("oob", st, g, "store through integer address " + text)
                continue
            if o.const:
                self.oblige("oob", st, g, "store to constant " + text)
                continue
            if self.pre_access_hook:
                self.pre_access_hook(self, st, "store", o, off, n, g)
            cells = dict(self.cells_of(st.mem, o))
            if off.is_const:
                if off.val + n > o.size:
                    self.oblige("oob", st, g, "store beyond %s %s" % (o.name, text))
                    continue
                x = v
                if not single:
                    old = self.get_cell(cells, off.val, n, o)
                    x = self.merge_val(g, v, old)
                self.put_cell(cells, off.val, x)
            else:
                found = self.offsets(st, g, off) if self.offsets else None
                if found is not None:
                    poss = [a for a in found if a + n <= o.size]
                    inb = t.ors([t.eq(off, t.const(a, off.w)) for a in poss]) if len(poss) < len(found) else t.TRUE
                else:
                    poss = self.possible_offsets(o, off, n)
                    inb = t.ule(off, t.const(o.size - n, self.ptrw)) if o.size >= n else t.FALSE
                bad = t.and_(g, t.not_(inb))
                if bad is not t.FALSE:
                    self.oblige("oob", st, bad, "store beyond %s %s" % (o.name, text))
                bs = self.to_bytes(v)
                old = [self.get_cell(cells, i, 1, o) for i in range(o.size)]
                new = list(old)
                for a in poss:
                    c = t.TRUE if found is not None and len(found) == 1 else t.eq(off, t.const(a, self.ptrw))
                    if not single:
                        c = t.and_(c, g)
                    if c is t.FALSE:
                        continue
                    for i in range(n):
                        new[a + i] = t.ite(c, bs[i], new[a + i])
                for i in range(o.size):
                    if new[i] is not old[i]:
                        self.put_cell(cells, i, new[i])
            st.mem = dict(st.mem)
            st.mem[o.id] = cells

    # ------------------------------------------------------------ values
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = self.int_ptr(a)
            if not isinstance(b, Ptr):
                b = self.int_ptr(b)
            return self.merge_ptr(c, a, b)
        if isinstance(a, tuple):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, list):
            return [self.merge_val(c, x, y) for x, y in zip(a, b)]
        return t.ite(c, a, b)

    def undef(self, ty):
        k = ty[0]
        if k == "i":
            return t.fresh("undef", ty[1])
        if k == "f":
            return t.fresh("undef", FBITS[ty[1]])
        if k == "ptr":
            return Ptr([(t.TRUE, None, t.fresh("undef", self.ptrw))])
        if k == "vec":
            return tuple(self.undef(ty[2]) for _ in range(ty[1]))
        if k == "struct":
            return [self.undef(e) for e in ty[1]]
        if k == "array":
            return [self.undef(ty[2]) for _ in range(ty[1])]
        raise SymexError("undef %r" % (ty,))

    def zero(self, ty):
        k = ty[0]
        if k == "i":
            return t.const(0, ty[1])
        if k == "f":
            return t.const(0, FBITS[ty[1]])
        if k == "ptr":
            return Ptr([(t.TRUE, None, t.const(0, self.ptrw))])
        if k == "vec":
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        if k == "struct":
            return [self.zero(e) for e in ty[1]]
        if k == "array":
            return [self.zero(ty[2]) for _ in range(ty[1])]
        raise SymexError("zero %r" % (ty,))

    def value(self, st, ty, v, m):
        k = v[0]
        if k == "local":
            try:
                return st.env[v[1]]
            except KeyError:
                raise SymexError("unbound %s" % v[1])
        if k == "const":
            if ty[0] == "i":
                return t.const(v[1], ty[1])
            if ty[0] == "f":
                return t.const(v[1], FBITS[ty[1]])
            if ty[0] == "ptr":
                return Ptr([(t.TRUE, None, t.const(v[1], self.ptrw))])
            raise SymexError("const of %r" % (ty,))
        if k == "global":
            return self.global_ptr(v[1])
        if k == "undef":
            return self.undef(ty)
        if k == "zero":
            return self.zero(ty)
        if k == "agg":
            xs = [self.value(st, et, ev, m) for et, ev in v[1]]
            return tuple(xs) if ty[0] == "vec" else xs
        if k == "bytes":
            return [t.const(b, 8) for b in v[1]]
        if k == "gep":
            return self.gep(st, v[1], v[2], m)
        if k == "cexpr":
            _, op, t1, x, t2 = v
            return self.cast(st, op, t1, self.value(st, t1, x, m), t2, m)
        if k == "cbin":
            a, b = [self.value(st, et, ev, m) for et, ev in v[2]]
            return {"add": t.add, "sub": t.sub, "mul": t.mul, "xor": t.xor, "and": t.and_, "or": t.or_}[v[1]](a, b)
        raise SymexError("value %r" % (v,))

    def gep(self, st, bt, ops, m):
        p = self.value(st, ops[0][0], ops[0][1], m)
        pw = self.ptrw

        def idx(ty, v):
            x = self.value(st, ty, v, m)
            return t.sext(x, pw) if x.w < pw else t.trunc(x, pw)
        off = t.mul(idx(*ops[1]), t.const(m.size(bt), pw))
        cur = bt
        for ty, v in ops[2:]:
            if cur[0] == "struct":
                i = v[1]
                off = t.add(off, t.const(m.offset(cur, i), pw))
                cur = cur[1][i]
            else:
                cur = cur[2]
                off = t.add(off, t.mul(idx(ty, v), t.const(m.size(cur), pw)))
        return self.ptr_add(p, off)

    def flat(self, ty, x):
        """bit pattern of a value"""
        if isinstance(x, Ptr):
            return self.ptr_int(x)
        if ty[0] == "vec":
            return self.join_vec(tuple(self.flat(ty[2], e) for e in x))
        return x

    def width(self, ty):
        if ty[0] == "vec":
            return ty[1] * self.lane_w(ty[2])
        return self.lane_w(ty)

    def cast(self, st, op, t1, x, t2, m):
        if t1[0] == "vec" and t2[0] == "vec" and op != "bitcast":
            return tuple(self.cast(st, op, t1[2], e, t2[2], m) for e in x)
        if op in ("zext",):
            return t.zext(x, t2[1])
        if op == "sext":
            return t.sext(x, t2[1])
        if op == "trunc":
            return t.trunc(x, t2[1])
        if op == "bitcast":
            if t1[0] == "ptr":
                return x
            b = self.flat(t1, x)
            if t2[0] == "vec":
                return self.split_vec(t2, b)
            return b
        if op in ("ptrtoint", "ptrtoaddr"):
            return t.resize(self.ptr_int(x), t2[1])
        if op == "inttoptr":
            return self.int_ptr(t.resize(x, self.ptrw))
        if op in ("fpext", "fptrunc"):
            return self.fp.convert(fp.BYNAME[t1[1]], fp.BYNAME[t2[1]], x)
        if op == "sitofp":
            return self.fp.from_int(fp.BYNAME[t2[1]], x, True)
        if op == "uitofp":
            return self.fp.from_int(fp.BYNAME[t2[1]], x, False)
        if op in ("fptosi", "fptoui"):
            f = fp.BYNAME[t1[1]]
            v, over = fp.trunc_mag(f, x, t2[1])
            s = fp.sign(f, x)
            if op == "fptosi":
                mn = t.const(1 << (t2[1] - 1), t2[1])
                bad = t.ors([fp.exp_ones(f, x), over, t.ite(s, t.ult(mn, v), t.ule(mn, v))])
                r = t.ite(s, t.neg(v), v)
            else:
                bad = t.ors([fp.exp_ones(f, x), over, t.and_(s, t.nonzero(v))])
                r = v
            return t.ite(bad, t.fresh("poison", t2[1]), r)
        if op == "addrspacecast":
            return x
        raise SymexError("cast %s" % op)

    # ------------------------------------------------------------ instructions
    def binop(self, op, ty, a, b, flags):
        if ty[0] == "vec":
            return tuple(self.binop(op, ty[2], x, y, flags) for x, y in zip(a, b))
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return self.fp.bin(op, fp.BYNAME[ty[1]], a, b)
        if op in ("shl", "lshr", "ashr"):
            f = {"shl": t.shl, "lshr": t.lshr, "ashr": t.ashr}[op]
            r = f(a, b)
            w = a.w
            if t.sigw(b) > (w - 1).bit_length() or (w & (w - 1)):
                ok = t.ult(b, t.const(w, w))
                if ok is not t.TRUE:
                    return t.ite(ok, r, t.fresh("poison", w))
            return r
        return {"add": t.add, "sub": t.sub, "mul": t.mul, "and": t.and_, "or": t.or_, "xor": t.xor, "udiv": t.udiv,
                "urem": t.urem, "sdiv": t.sdiv, "srem": t.srem}[op](a, b)

    def icmp(self, ty, pred, a, b):
        if ty[0] == "vec":
            return tuple(self.icmp(ty[2], pred, x, y) for x, y in zip(a, b))
        if ty[0] == "ptr":
            if len(a.cases) == 1 and len(b.cases) == 1 and a.cases[0][1] is b.cases[0][1] \
                    and (a.cases[0][1] is None or pred in ("eq", "ne")):
                a, b = a.cases[0][2], b.cases[0][2]
            else:
                a, b = self.ptr_int(a), self.ptr_int(b)
        return {"eq": t.eq, "ne": t.ne, "ult": t.ult, "ule": t.ule, "ugt": t.ugt, "uge": t.uge, "slt": t.slt,
                "sle": t.sle, "sgt": t.sgt, "sge": t.sge}[pred](a, b)

    def instr(self, st, ins, m):
        op = ins.op
        V = lambda ty, v: self.value(st, ty, v, m)
        if op in llir.BIN:
            a, b = V(ins.ty, ins.a[0]), V(ins.ty, ins.a[1])
            if self.fold and op in ("shl", "lshr", "ashr") and ins.ty[0] != "vec":
                b = self.folded(st, b)
            if op in ("udiv", "urem", "sdiv", "srem") and ins.ty[0] != "vec":
                z = t.is_zero(b)
                if z is not t.FALSE:
                    self.oblige("divzero", st, z, ins.text)
            if self.hooks.get("binop"):
                r = self.hooks["binop"](self, st, ins, a, b)
                if r is not None:
                    return r
            return self.binop(op, ins.ty, a, b, ins.a[2])
        if op == "icmp":
            return self.icmp(ins.ty, ins.a[0], V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2]))
        if op == "fcmp":
            a, b = V(ins.ty, ins.a[1]), V(ins.ty, ins.a[2])
            if ins.ty[0] == "vec":
                return tuple(self.fp.fcmp(fp.BYNAME[ins.ty[2][1]], ins.a[0], x, y) for x, y in zip(a, b))
            return self.fp.fcmp(fp.BYNAME[ins.ty[1]], ins.a[0], a, b)
        if op == "select":
            c, a, b, ct = ins.a
            c = V(ct, c)
            a, b = V(ins.ty, a), V(ins.ty, b)
            if ct[0] == "vec":
                return tuple(self.merge_val(x, y, z) for x, y, z in zip(c, a, b))
            c = self.folded(st, c)
            return self.merge_val(c, a, b) if not c.is_const else (a if c.val else b)
        if op in llir.CAST:
            return self.cast(st, op, ins.a[0], V(ins.a[0], ins.a[1]), ins.ty, m)
        if op == "fneg":
            x = V(ins.ty, ins.a[0])
            if ins.ty[0] == "vec":
                return tuple(fp.fneg(fp.BYNAME[ins.ty[2][1]], e) for e in x)
            return fp.fneg(fp.BYNAME[ins.ty[1]], x)
        if op == "freeze":
            return V(ins.ty, ins.a[0])
        if op == "getelementptr":
            return self.gep(st, ins.ty, ins.a[0], m)
        if op == "load":
            p = V(("ptr",), ins.a[0])
            if ins.a[1] and self.atomic_load_hook:
                r = self.atomic_load_hook(self, st, ins.ty, p)
                if r is not None:
                    return r
            if self.check_align:
                self.aligned(st, p, ins.text)
            return self.load(st, ins.ty, p, m, ins.text)
        if op == "store":
            h = self.hooks.get("atomic_store") if ins.a[2] else None
            if h and h(self, st, ins.ty, V(ins.ty, ins.a[0]), V(("ptr",), ins.a[1])):
                return None
            if self.check_align:
                self.aligned(st, V(("ptr",), ins.a[1]), ins.text)
            self.store(st, ins.ty, V(ins.ty, ins.a[0]), V(("ptr",), ins.a[1]), m, ins.text)
            return None
        if op == "alloca":
            cnt = 1
            if ins.a[0] is not None:
                c = V(("i", 64), ins.a[0])
                cnt = c.val
            o = self.new_obj("%s:%s" % (self.stack[-1], ins.res), m.size(ins.ty) * cnt, "alloca", align=ins.a[1])
            return Ptr([(t.TRUE, o, t.const(0, self.ptrw))])
        if op == "extractvalue":
            x = V(ins.ty, ins.a[0])
            for i in ins.a[1]:
                x = x[i]
            return x
        if op == "insertvalue":
            x = V(ins.ty, ins.a[0])
            v = V(ins.a[1], ins.a[2])

            def upd(x, idx):
                x = list(x)
                x[idx[0]] = v if len(idx) == 1 else upd(x[idx[0]], idx[1:])
                return x
            return upd(x, ins.a[3])
        if op == "extractelement":
            x = V(ins.ty, ins.a[0])
            i = ins.a[1]
            if i[0] != "const":
                raise SymexError("variable extractelement")
            return x[i[1]]
        if op == "insertelement":
            x = list(V(ins.ty, ins.a[0]))
            x[ins.a[2][1]] = V(ins.a[3], ins.a[1])
            return tuple(x)
        if op == "shufflevector":
            a, b, mt, mk = ins.a
            a, b = V(ins.ty, a), V(ins.ty, b)
            al = list(a) + list(b)
            if mk[0] == "zero":
                return tuple([al[0]] * mt[1])
            return tuple(al[x[1][1]] if x[1][0] == "const" else self.undef(ins.ty[2]) for x in mk[1])
        if op == "fence":
            return None
        if op == "call":
            return self.call_instr(st, ins, m)
        if op == "cmpxchg" or op == "atomicrmw":
            h = self.hooks.get(op)
            if h:
                return h(self, st, ins, m)
            raise SymexError(op)
        raise SymexError("instruction %s" % ins.text)

    # ------------------------------------------------------------ calls
    def call_instr(self, st, ins, m):
        callee, args = ins.a
        vals = [self.value(st, ty, v, m) if ty != ("meta",) else None for ty, v, _ in args]
        tys = [ty for ty, _, _ in args]
        if callee[0] == "asm":
            if self.asm:
                r = self.asm(self, st, ins, tys, vals)
                if r is not NotImplemented:
                    return r
            return self.default_asm(st, ins, tys, vals)
        if callee[0] == "global":
            name = callee[1]
        else:
            p = self.value(st, ("ptr",), callee, m)
            ends = []
            for g, o, off in p.cases:
                s2 = st if len(p.cases) == 1 else State(conj_add(st.pc, g), st.env, st.mem)
                if s2.pc is None:
                    continue
                if o is None:
                    h = self.hooks.get("abscall")
                    if h is None:
                        raise SymexError("indirect call to %r" % (off,))
                    v = h(self, s2, off, vals)
                elif o.kind == "func" and off.is_const and off.val == 0:
                    v = self.call_named(s2, o.name, tys, vals, ins)
                else:
                    raise SymexError("indirect call")
                if len(p.cases) == 1:
                    return v
                if s2.pc is not None:
                    ends.append(State(s2.pc, {"r": v}, s2.mem))
            if not ends:
                st.pc = None
                return None
            s2 = self.merge_states(ends, ["r"])
            st.mem, st.pc = s2.mem, s2.pc
            return s2.env["r"]
        return self.call_named(st, name, tys, vals, ins)

    def call_named(self, st, name, tys, vals, ins):
        nm = name[1:].strip('"')
        for m in self.modules:
            name = m.resolve(name)
        nm2 = name[1:].strip('"')
        for k in (nm, nm2):
            if k in self.overrides:
                return self.overrides[k](self, st, tys, vals, ins)
        if nm.startswith("llvm."):
            return self.intrinsic(st, nm, tys, vals, ins)
        if is_panic(nm):
            self.oblige("panic", st, t.TRUE, nm)
            st.pc = None
            return None
        f = self.find_func(name)
        if f is None:
            h = self.hooks.get("extern")
            if h:
                return h(self, st, nm, tys, vals, ins)
            raise SymexError("external call %s" % nm)
        r, mem, pc = self.run_function(f, vals, st.pc, st.mem)
        st.mem = mem
        st.pc = pc
        return r

    def intrinsic(self, st, nm, tys, vals, ins):
        base = nm[5:]
        ty = ins.ty

        def lanes(fn):
            vt = [x for x in tys if x[0] == "vec"]
            if ty[0] == "vec":
                n = ty[1]
                return tuple(fn(ty[2], *[v[i] if isinstance(v, tuple) else v for v in vals]) for i in range(n))
            return fn(ty, *vals)
        if base.startswith(("lifetime.", "dbg.", "experimental.noalias", "invariant.", "donothing", "sideeffect")):
            return None
        if base.startswith("assume"):
            self.oblige("assume", st, t.not_(vals[0]), "llvm.assume")
            return None
        if base.startswith("expect."):
            return vals[0]
        if base.startswith("fabs."):
            return lanes(lambda ty, x: fp.fabs(fp.BYNAME[ty[1]], x))
        if base.startswith("copysign."):
            return lanes(lambda ty, x, y: fp.copysign(fp.BYNAME[ty[1]], x, y))
        if base.startswith("ctlz."):
            def f(ty, x, z):
                r = self.folded(st, t.clz(x))
                if z.is_const and z.val:
                    zz = self.folded(st, t.is_zero(x))
                    if zz is not t.FALSE:
                        return t.ite(zz, t.fresh("poison", x.w), r)
                return r
            return lanes(f)
        if base.startswith("cttz."):
            def f(ty, x, z):
                r = self.folded(st, t.ctz(x))
                if z.is_const and z.val:
                    zz = self.folded(st, t.is_zero(x))
                    if zz is not t.FALSE:
                        return t.ite(zz, t.fresh("poison", x.w), r)
                return r
            return lanes(f)
        if base.startswith("ctpop."):
            return lanes(lambda ty, x: t.popcount(x))
        if base.startswith("bswap."):
            return lanes(lambda ty, x: t.concat(*[t.extract(x, 8 * i + 7, 8 * i) for i in range(x.w // 8)]))
        if base.startswith("bitreverse."):
            return lanes(lambda ty, x: t.reverse_bits(x))
        if base.startswith("abs."):
            return lanes(lambda ty, x, z: t.ite(t.bit(x, x.w - 1), t.neg(x), x))
        for k, fn in (("umin.", t.ult), ("umax.", t.ugt), ("smin.", t.slt), ("smax.", t.sgt)):
            if base.startswith(k):
                return lanes(lambda ty, x, y: t.ite(fn(x, y), x, y))
        if base.startswith("scmp.") or base.startswith("ucmp."):
            lt = t.slt if base[0] == "s" else t.ult
            w = ty[1]
            a, b = vals
            return t.ite(lt(a, b), t.const(-1, w), t.ite(lt(b, a), t.const(1, w), t.const(0, w)))
        if base.startswith(("fshl.", "fshr.")):
            def f(ty, a, b, c):
                w = a.w
                n = t.urem(c, t.const(w, w))
                if base.startswith("fshl."):
                    x = t.shl(t.concat(a, b), t.zext(n, 2 * w))
                    return t.extract(x, 2 * w - 1, w)
                x = t.lshr(t.concat(a, b), t.zext(n, 2 * w))
                return t.extract(x, w - 1, 0)
            return lanes(f)
        mm = re.match(r"([us])(add|sub|mul)\.with\.overflow\.i(\d+)", base)
        if mm:
            w = int(mm.group(3))
            return list(overflow_op(mm.group(2), mm.group(1) == "s", vals[0], vals[1]))
        if base.startswith("usub.sat."):
            return lanes(lambda ty, a, b: t.ite(t.ult(a, b), t.const(0, a.w), t.sub(a, b)))
        if base.startswith("uadd.sat."):
            return lanes(lambda ty, a, b: t.ite(t.ult(t.add(a, b), a), t.const(-1, a.w), t.add(a, b)))
        mm = re.match(r"(s)(add|sub)\.sat\.i(\d+)", base)
        if mm:
            v, o = overflow_op(mm.group(2), True, vals[0], vals[1])
            w = v.w
            return t.ite(o, t.ite(t.bit(vals[0], w - 1), t.const(1 << (w - 1), w), t.const((1 << (w - 1)) - 1, w)), v)
        if base.startswith("fptosi.sat."):
            return fp.to_int_sat(fp.BYNAME[tys[0][1]], vals[0], ty[1], True)
        if base.startswith("fptoui.sat."):
            return fp.to_int_sat(fp.BYNAME[tys[0][1]], vals[0], ty[1], False)
        if base.startswith(("fma.", "fmuladd.")):
            return lanes(lambda ty, a, b, c: self.fp.fma(fp.BYNAME[ty[1]], a, b, c))
        if base.startswith("sqrt."):
            return lanes(lambda ty, a: self.fp.sqrt(fp.BYNAME[ty[1]], a))
        for k, md in (("floor.", "floor"), ("ceil.", "ceil"), ("trunc.", "trunc"), ("rint.", "rne"),
                      ("roundeven.", "rne"), ("nearbyint.", "rne"), ("round.", "away")):
            if base.startswith(k):
                return lanes(lambda ty, a: fp.round_int(fp.BYNAME[ty[1]], a, md))
        if base.startswith(("minimumnum.", "maximumnum.", "minnum.", "maxnum.", "minimum.", "maximum.")):
            return lanes(lambda ty, a, b: minmax(base.split(".")[0], fp.BYNAME[ty[1]], a, b))
        if base.startswith("is.fpclass."):
            f = fp.BYNAME[tys[0][1]]
            return fpclass(f, vals[0], vals[1].val)
        if base.startswith("ptrmask"):
            a = self.ptr_int(vals[0])
            return self.int_ptr(t.and_(a, t.resize(vals[1], self.ptrw)))
        if base.startswith(("memcpy.", "memmove.")):
            d, s, n = vals[0], vals[1], vals[2]
            if not n.is_const:
                h = self.hooks.get("memcpy")
                if h:
                    return h(self, st, d, s, n)
                raise SymexError("symbolic memcpy")
            m = self.modules[0]
            bs = [self.load(st, ("i", 8), self.ptr_add(s, t.const(i, self.ptrw)), m) for i in range(n.val)]
            self.copy_bytes(st, d, s, n.val, bs)
            return None
        if base.startswith("memset."):
            d, v, n = vals[0], vals[1], vals[2]
            if not n.is_const:
                h = self.hooks.get("memset")
                if h:
                    return h(self, st, d, v, n)
                raise SymexError("symbolic memset")
            for i in range(n.val):
                self.store_raw(st, v, self.ptr_add(d, t.const(i, self.ptrw)))
            return None
        if base == "trap" or base.startswith("ubsantrap") or base == "debugtrap":
            self.oblige("panic", st, t.TRUE, base)
            st.pc = None
            return None
        h = self.hooks.get("intrinsic")
        if h:
            return h(self, st, nm, tys, vals, ins)
        raise SymexError("intrinsic %s" % nm)

    def copy_bytes(self, st, d, s, n, bs):
        # whole-object copies keep wide cells when both sides are plain
        if len(d.cases) == 1 and len(s.cases) == 1 and d.cases[0][2].is_const and s.cases[0][2].is_const \
                and s.cases[0][1] is not None and d.cases[0][1] is not None:
            so, doff = s.cases[0][2].val, d.cases[0][2].val
            cells = self.cells_of(st.mem, s.cases[0][1])
            todo = []
            i = so
            while i < so + n:
                c = cells.get(i)
                if c is not None and i + c[0] <= so + n:
                    todo.append((i - so, c[1]))
                    i += c[0]
                else:
                    todo.append((i - so, bs[i - so]))
                    i += 1
            for o, v in todo:
                self.store_raw(st, v, self.ptr_add(d, t.const(o, self.ptrw)))
            return
        for i, b in enumerate(bs):
            self.store_raw(st, b, self.ptr_add(d, t.const(i, self.ptrw)))

    def default_asm(self, st, ins, tys, vals):
        tmpl = ins.a[0][1]
        if re.fullmatch(r"\s*", tmpl):
            if ins.ty == ("void",):
                return None
            # empty asm used as an optimisation barrier: outputs tied to inputs
            return vals[0] if vals else self.undef(ins.ty)
        mm = re.fullmatch(r"\s*sqrts([sd]) \$\{0(?::x)?\}, \$\{0(?::x)?\}\s*", tmpl)
        if mm and ins.ty[0] == "f" and len(vals) == 1:
            return self.fp.sqrt(fp.BYNAME[ins.ty[1]], vals[0])
        mm = re.fullmatch(r"\s*div \$\{(\d+):([qk])\}\s*", tmpl)
        if mm:
            cons = [c for c in ins.a[0][2].split(",") if not c.startswith("~")]
            outs = [c for c in cons if c.startswith("=")]
            ins_c = cons[len(outs):]
            no = len(outs)
            idx = int(mm.group(1))
            w = 64 if mm.group(2) == "q" else 32

            def val(i):
                return vals[i - no]
            regs = {}
            for i, c in enumerate(ins_c):
                k = c.strip("{}")
                if k.isdigit():
                    k = outs[int(k)].lstrip("=&").strip("{}")
                if k in ("ax", "dx", "rax", "rdx", "eax", "edx"):
                    regs[k[-2:]] = vals[i]
            dv = val(idx)
            n = t.concat(regs["dx"], regs["ax"])
            self.oblige("divzero", st, t.ule(dv, regs["dx"]), "x86 div overflow or zero")
            h = self.hooks.get("x86div")
            if h:
                q, r = h(self, st, n, dv)
            else:
                d2 = t.zext(dv, 2 * w)
                q, r = t.trunc(t.udiv(n, d2), w), t.trunc(t.urem(n, d2), w)
            res = []
            for c in outs:
                k = c.lstrip("=&").strip("{}")
                res.append({"ax": q, "dx": r}[k[-2:]])
            return res if len(res) > 1 else res[0]
        raise SymexError("asm %r %r" % (tmpl, ins.a[0][2]))

    # ------------------------------------------------------------ functions
    def run(self, name, args, pc=(), mem=None):
        f = self.find_func("@" + name)
        if f is None:
            raise SymexError("no function %s" % name)
        return self.run_function(f, args, pc, mem if mem is not None else {})

    def run_function(self, f, args, pc, mem):
        f.parse()
        self.funcs_run[f.name] = self.funcs_run.get(f.name, 0) + 1
        if len(self.stack) > 60:
            raise SymexError("call depth at %s" % f.name)
        self.stack.append(f.name)
        try:
            return self._run_function(f, args, pc, mem)
        finally:
            self.stack.pop()

    def _run_function(self, f, args, pc, mem):
        info = analyze(f)
        env = {}
        for (nm, ty, at), v in zip(f.params, args):
            env[nm] = v
        pend = {f.entry: [State(pc, env, mem)]}
        rets = []
        self._tree(f, info, info.tree, pend, rets)
        if not rets:
            return None, mem, None
        return self.merge_rets(rets)

    def merge_rets(self, rets):
        if len(rets) == 1:
            s, v = rets[0]
            return v, s.mem, s.pc
        st = self.merge_states([State(s.pc, {"r": v}, s.mem) for s, v in rets], ["r"])
        return st.env["r"], st.mem, st.pc

    def _tree(self, f, info, tree, pend, rets):
        for item in tree:
            if item[0] == "b":
                sts = pend.pop(item[1], None)
                if sts:
                    self._block(f, info, item[1], sts, pend, rets)
            else:
                _, header, sub, nodes = item
                it = 0
                while any(pend.get(n) for n in nodes):
                    if it > 0 and self.feasible is not None:
                        for n in nodes:
                            if pend.get(n):
                                keep = [s for s in pend[n] if self.feasible(s.pct())]
                                pend[n] = keep
                        if not any(pend.get(n) for n in nodes):
                            break
                    if it >= self.max_iter:
                        for n in nodes:
                            for s in pend.get(n, []):
                                self.oblige("unwind", s, t.TRUE, "%s %s after %d iterations" % (f.name, header, it))
                            pend.pop(n, None)
                        break
                    if self.loop_hook:
                        self.loop_hook(self, f, header, it, pend)
                    self._tree(f, info, sub, pend, rets)
                    it += 1
                k = (f.name, header)
                self.loop_iters[k] = max(self.loop_iters.get(k, 0), it)

    def merge_states(self, sts, live):
        if len(sts) == 1:
            return sts[0]
        common = [c for c in sts[0].pc if all(any(c is d for d in s.pc) for s in sts[1:])]
        cids = {c.id for c in common}
        gs = []
        for s in sts:
            gs.append(t.ands([c for c in s.pc if c.id not in cids]))
        env = {}
        for v in live:
            vals = [s.env.get(v) for s in sts]
            r = vals[-1]
            for g, x in zip(reversed(gs[:-1]), reversed(vals[:-1])):
                if x is not r:
                    r = self.merge_val(g, x, r)
            env[v] = r
        mem = sts[0].mem
        if any(s.mem is not mem for s in sts[1:]):
            ids = set()
            for s in sts:
                ids |= set(s.mem)
            mem = {}
            for i in ids:
                cs = [s.mem.get(i, self.mem0.get(i)) for s in sts]
                # objects first created on some paths only
                present = [c for c in cs if c is not None]
                if all(c is present[0] for c in present):
                    mem[i] = present[0]
                    continue
                mem[i] = self.merge_cells(gs, cs)
        pc = tuple(common)
        d = t.ors(gs)
        p2 = conj_add(pc, d)
        if p2 is None:
            raise SymexError("infeasible merge")
        return State(p2, env, mem)

    def merge_cells(self, gs, cs):
        r = None
        for g, c in reversed(list(zip(gs, cs))):
            if c is None:
                continue
            if r is None:
                r = c
                continue
            if r is c:
                continue
            if set(r) == set(c) and all(r[o][0] == c[o][0] for o in r):
                r = {o: ((c[o][0], c[o][1]) if c[o][1] is r[o][1] else (c[o][0], self.merge_val(g, c[o][1], r[o][1])))
                     for o in r}
                continue
            a, b = self.explode(c), self.explode(r)
            n = {}
            for o in set(a) | set(b):
                x, y = a.get(o), b.get(o)
                if x is None or y is None:
                    n[o] = (1, x if y is None else y)
                else:
                    n[o] = (1, t.ite(g, x, y))
            # keep the cells both agree on
            for o in set(r) & set(c):
                if r[o][0] == c[o][0] and r[o][0] > 1:
                    v = r[o][1] if r[o][1] is c[o][1] else self.merge_val(g, c[o][1], r[o][1])
                    for i in range(r[o][0]):
                        n.pop(o + i, None)
                    n[o] = (r[o][0], v)
            r = n
        return r

    def explode(self, cells):
        out = {}
        for o, (n, v) in cells.items():
            for i, b in enumerate(self.to_bytes(v)):
                out[o + i] = b
        return out

    def _block(self, f, info, name, sts, pend, rets):
        b = f.blocks[name]
        m = f.module
        self.steps += 1
        if self.hooks.get("merge") is False and len(sts) > 1:
            for s in sts:
                self._block(f, info, name, [s], pend, rets)
            return
        st = self.merge_states(sts, info.livein[name])
        st = State(st.pc, dict(st.env), st.mem)
        for ins in b.ins:
            v = self.instr(st, ins, m)
            if st.pc is None:
                return
            if ins.res is not None:
                st.env[ins.res] = v
        term = b.term
        if term.op == "ret":
            v = None if term.a[0] is None else self.value(st, term.ty, term.a[0], m)
            rets.append((st, v))
            return
        if term.op == "unreachable":
            self.oblige("unreachable", st, t.TRUE, name)
            return
        if term.op == "br":
            self._edge(f, info, name, term.a[0], st, st.pc, pend, m)
            return
        if term.op == "condbr":
            c = self.folded(st, self.value(st, ("i", 1), term.a[0], m))
            if term.a[1] == term.a[2]:
                self._edge(f, info, name, term.a[1], st, st.pc, pend, m)
                return
            pa = conj_add(st.pc, c)
            pb = conj_add(st.pc, t.not_(c))
            if pa is not None:
                self._edge(f, info, name, term.a[1], st, pa, pend, m)
            if pb is not None:
                self._edge(f, info, name, term.a[2], st, pb, pend, m)
            return
        if term.op == "switch":
            v = self.value(st, term.ty, term.a[0], m)
            dflt = st.pc
            bydest = {}
            for cv, dst in term.a[2]:
                c = t.eq(v, t.const(cv, v.w))
                bydest[dst] = t.or_(bydest.get(dst, t.FALSE), c)
                if dflt is not None:
                    dflt = conj_add(dflt, t.not_(c))
            for dst, c in bydest.items():
                if dst == term.a[1]:
                    continue
                p = conj_add(st.pc, c)
                if p is not None:
                    self._edge(f, info, name, dst, st, p, pend, m)
            if term.a[1] in bydest:
                others = t.ors([c for d, c in bydest.items() if d != term.a[1]])
                dflt = conj_add(st.pc, t.not_(others))
            if dflt is not None:
                self._edge(f, info, name, term.a[1], st, dflt, pend, m)
            return
        raise SymexError(term.op)

    def _edge(self, f, info, src, dst, st, pc, pend, m):
        b = f.blocks[dst]
        live = info.livein[dst]
        env = {}
        pv = {}
        for ph in b.phis:
            for v, l in ph.a:
                if l == src:
                    pv[ph.res] = self.value(st, ph.ty, v, m)
                    break
            else:
                raise SymexError("phi without edge %s->%s" % (src, dst))
        for v in live:
            if v in pv:
                env[v] = pv[v]
            else:
                env[v] = st.env[v]
        pend.setdefault(dst, []).append(State(pc, env, st.mem))


def is_panic(nm):
    return ("panic" in nm or "unwrap_failed" in nm or "expect_failed" in nm or "slice_index_fail" in nm
            or "slice_start_index" in nm or "slice_end_index" in nm or nm in ("abort",)
            or "capacity_overflow" in nm or "assert_failed" in nm or "unreachable_display" in nm)


def mux(idx, vals):
    """vals[idx] (idx beyond the end: any value)"""
    n = len(vals)
    if n == 1 or all(v is vals[0] for v in vals):
        return vals[0]
    k = (n - 1).bit_length()

    def go(level, lo):
        if lo >= n:
            return None
        if level < 0:
            return vals[lo]
        a = go(level - 1, lo)
        b = go(level - 1, lo + (1 << level))
        if b is None:
            return a
        return t.ite(t.bit(idx, level), b, a)
    return go(k - 1, 0)


def overflow_op(op, signed, a, b):
    w = a.w
    if op in ("add", "sub"):
        ext = t.sext if signed else t.zext
        A, B = ext(a, w + 1), ext(b, w + 1)
        R = t.add(A, B) if op == "add" else t.sub(A, B)
        r = (t.add if op == "add" else t.sub)(a, b)
        if signed:
            o = t.xor(t.bit(R, w), t.bit(R, w - 1))
        elif op == "add":
            o = t.bit(R, w)
        else:
            o = t.ult(a, b)
        return r, o
    ext = t.sext if signed else t.zext
    R = t.mul(ext(a, 2 * w), ext(b, 2 * w))
    r = t.trunc(R, w)
    hi = t.extract(R, 2 * w - 1, w)
    if signed:
        o = t.ne(hi, t.sext(t.bit(r, w - 1), w))
    else:
        o = t.nonzero(hi)
    return r, o


def minmax(kind, f, a, b):
    na, nb = fp.is_nan(f, a), fp.is_nan(f, b)
    # total order on non NaN values with -0 < +0
    lt = t.ite(fp.sign(f, a), t.ite(fp.sign(f, b), t.ult(fp.mag(f, b), fp.mag(f, a)), t.TRUE),
               t.ite(fp.sign(f, b), t.FALSE, t.ult(fp.mag(f, a), fp.mag(f, b))))
    if kind.startswith("min"):
        r = t.ite(lt, a, b)
    else:
        r = t.ite(lt, b, a)
    if kind in ("minnum", "maxnum"):
        # sign of zero unspecified
        bz = t.and_(fp.is_zero_f(f, a), fp.is_zero_f(f, b))
        r = t.ite(bz, t.ite(t.fresh("zsel", 1), a, b), r)
    if kind in ("minimum", "maximum"):
        return t.ite(t.or_(na, nb), fp.qnan(f), r)
    return t.ite(na, t.ite(nb, fp.qnan(f), b), t.ite(nb, a, r))


def fpclass(f, x, mask):
    s = fp.sign(f, x)
    n = t.not_(s)
    q = t.bit(x, f.sb - 1)
    cl = [t.and_(fp.is_nan(f, x), t.not_(q)), t.and_(fp.is_nan(f, x), q),
          t.and_(s, fp.is_inf(f, x)), t.and_(s, fp.is_normal(f, x)), t.and_(s, fp.is_sub(f, x)),
          t.and_(s, fp.is_zero_f(f, x)), t.and_(n, fp.is_zero_f(f, x)), t.and_(n, fp.is_sub(f, x)),
          t.and_(n, fp.is_normal(f, x)), t.and_(n, fp.is_inf(f, x))]
    return t.ors([c for i, c in enumerate(cl) if mask >> i & 1])


# ---------------------------------------------------------------- CFG analysis

class Info:
    pass


def uses_of(ins):
    out = []

    def walk(v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] == "local" and isinstance(v[1], str):
            out.append(v[1])
        elif isinstance(v, (tuple, list)):
            for x in v:
                walk(x)
    walk(ins.a)
    return out


def analyze(f):
    if hasattr(f, "info"):
        return f.info
    info = Info()
    succ = {n: list(dict.fromkeys(b.succ)) for n, b in f.blocks.items()}
    # liveness: livein includes phi results; phi uses count on the edge
    use, dfn = {}, {}
    for n, b in f.blocks.items():
        u, d = set(), set()
        for ph in b.phis:
            d.add(ph.res)
        for ins in b.ins + ([b.term] if b.term else []):
            for x in uses_of(ins):
                if x not in d:
                    u.add(x)
            if ins.res:
                d.add(ins.res)
        use[n], dfn[n] = u, d
    phiuse = {n: {} for n in f.blocks}
    for n, b in f.blocks.items():
        for ph in b.phis:
            for v, l in ph.a:
                s = []
                walk_locals(v, s)
                for x in s:
                    phiuse[l].setdefault(n, set()).add(x)
    livein = {n: set() for n in f.blocks}
    phires = {n: {ph.res for ph in b.phis} for n, b in f.blocks.items()}
    changed = True
    while changed:
        changed = False
        for n in reversed(f.order):
            lo = set()
            for s in succ[n]:
                lo |= livein[s] - phires[s]
                lo |= phiuse[n].get(s, set())
            li = use[n] | (lo - dfn[n])
            if li != livein[n]:
                livein[n] = li
                changed = True
    # phi results that are used anywhere must be carried
    for n in f.blocks:
        livein[n] = livein[n] | phires[n]
    info.livein = {n: sorted(v) for n, v in livein.items()}
    info.tree = build_tree(list(f.order), succ, set(), f.entry)
    f.info = info
    return info


def walk_locals(v, out):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == "local" and isinstance(v[1], str):
        out.append(v[1])
    elif isinstance(v, (tuple, list)):
        for x in v:
            walk_locals(x, out)


def build_tree(nodes, succ, cut, entry):
    ns = set(nodes)
    sccs = tarjan(nodes, lambda n: [s for s in succ[n] if s in ns and s not in cut])
    out = []
    for comp in reversed(sccs):     # tarjan gives reverse topological order
        if len(comp) == 1:
            n = comp[0]
            if not (n in succ[n] and n not in cut):
                out.append(("b", n))
                continue
        cs = set(comp)
        entries = [n for n in nodes if n in cs and (n == entry or any(n in succ[p] and p not in cs for p in succ))]
        h = entries[0] if entries else comp[0]
        order = [n for n in nodes if n in cs]
        out.append(("loop", h, build_tree(order, succ, cut | {h}, entry), order))
    return out


def tarjan(nodes, succ):
    index = {}
    low = {}
    on = set()
    st = []
    out = []
    cnt = [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ(root)))]
        index[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        on.add(root)
        while work:
            n, it = work[-1]
            adv = False
            for s in it:
                if s not in index:
                    index[s] = low[s] = cnt[0]
                    cnt[0] += 1
                    st.append(s)
                    on.add(s)
                    work.append((s, iter(succ(s))))
                    adv = True
                    break
                elif s in on:
                    low[n] = min(low[n], index[s])
            if adv:
                continue
            work.pop()
            if work:
                p = work[-1][0]
                low[p] = min(low[p], low[n])
            if low[n] == index[n]:
                comp = []
                while True:
                    x = st.pop()
                    on.discard(x)
                    comp.append(x)
                    if x == n:
                        break
                out.append(comp)
    return out

"""Parser for the textual LLVM IR that rustc emits for the crates in /repo."""
import re
from fractions import Fraction

# ---------------------------------------------------------------- types
# ints: ('i', n)   floats: ('f', 'half'|'float'|'double'|'fp128')   ('ptr',)  ('void',)
# ('struct', [types], packed)  ('array', n, t)  ('vec', n, t)  ('func',...)  ('meta',) ('label',)

FBITS = {"half": 16, "float": 32, "double": 64, "fp128": 128, "bfloat": 16, "x86_fp80": 80}
FSIG = {"half": 10, "float": 23, "double": 52, "fp128": 112}


class ParseError(Exception):
    pass


TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"])*")
 |(?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<global>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![a-zA-Z0-9_.]*)
 |(?P<attr>\#[0-9]+)
 |(?P<fspec>[-+](?:inf|qnan|nan|snan)(?:\([^)]*\))?)
 |(?P<num>-?(?:0x[0-9A-Fa-f]+|[0-9]+\.[0-9]*(?:e[-+]?[0-9]+)?|[0-9]+(?![a-zA-Z_.])))
 |(?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
 |(?P<punct>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "":
                break
            raise ParseError("token at %r" % s[i:i + 40])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


class P:
    def __init__(self, toks, module):
        self.t = toks
        self.i = 0
        self.m = module

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ("eof", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def acc(self, v):
        if self.peek()[1] == v and self.peek()[0] != "str":
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise ParseError("expected %r got %r in %r" % (v, self.peek(), self.t))

    def type(self):
        k, v = self.next()
        if k == "word":
            if re.fullmatch(r"i\d+", v):
                t = ("i", int(v[1:]))
            elif v in FBITS:
                t = ("f", v)
            elif v == "ptr":
                t = ("ptr",)
            elif v == "void":
                t = ("void",)
            elif v == "metadata":
                t = ("meta",)
            elif v == "label":
                t = ("label",)
            elif v == "b8":
                t = ("i", 8)
            else:
                raise ParseError("type %r" % v)
        elif v == "{":
            t = ("struct", tuple(self._types("}")), False)
        elif v == "<":
            if self.acc("{"):
                ts = self._types("}")
                self.exp(">")
                t = ("struct", tuple(ts), True)
            else:
                n = int(self.next()[1])
                self.exp("x")
                e = self.type()
                self.exp(">")
                t = ("vec", n, e)
        elif v == "[":
            n = int(self.next()[1])
            self.exp("x")
            e = self.type()
            self.exp("]")
            t = ("array", n, e)
        elif k == "local":
            t = self.m.types[v]
        else:
            raise ParseError("type at %r %r" % (k, v))
        if self.peek()[1] == "(" and t[0] != "label" and self._is_functype():
            # function type: skip parameter list
            depth = 0
            while True:
                x = self.next()[1]
                if x == "(":
                    depth += 1
                elif x == ")":
                    depth -= 1
                    if depth == 0:
                        break
            t = ("func", t)
        return t

    def _is_functype(self):
        # "T (types)" used in call of varargs / alias; distinguished by a type or ')' or '...' after '('
        k, v = self.peek(1)
        return v == ")" or v == "..." or (k == "word" and (re.fullmatch(r"i\d+|ptr|void", v) or v in FBITS)) or v in "{<["

    def _types(self, end):
        ts = []
        if self.acc(end):
            return ts
        while True:
            ts.append(self.type())
            if self.acc(end):
                return ts
            self.exp(",")

    ATTRS = set("""noundef nonnull noalias nofree readonly readnone writeonly zeroext signext inreg immarg nocapture
        returned nest swiftself swifterror noext writable allocptr dead_on_return dead_on_unwind""".split())

    def attrs(self):
        out = {}
        while True:
            k, v = self.peek()
            if k == "word" and v in self.ATTRS:
                out[v] = True
                self.next()
            elif k == "word" and v in ("align", "dereferenceable", "dereferenceable_or_null", "captures", "range",
                                       "sret", "byval", "initializes", "nofpclass", "memory", "elementtype", "byref",
                                       "alignstack", "inalloca", "preallocated", "dead_on_return"):
                self.next()
                if v == "align" and self.peek()[0] == "num":
                    out["align"] = int(self.next()[1])
                elif self.peek()[1] == "(":
                    start = self.i
                    self.skip_parens()
                    out[v] = self.t[start:self.i]
            else:
                return out

    def skip_parens(self):
        depth = 0
        while True:
            x = self.next()[1]
            if x in ("(",):
                depth += 1
            elif x == ")":
                depth -= 1
                if depth == 0:
                    return

    # ------------------------------------------------------------ values
    # ('local', name) ('const', int) ('fconst', bits) ('agg', [vals]) ('undef',) ('zero',) ('global', name)
    # ('null',) ('gep', ...) expr
    def value(self, ty):
        k, v = self.peek()
        if k == "local":
            self.next()
            return ("local", v)
        if k == "global":
            self.next()
            return ("global", v)
        if k == "num":
            self.next()
            if ty[0] == "f":
                return ("const", parse_float(v, ty[1]))
            return ("const", int(v))
        if k == "fspec":
            self.next()
            sg = v[0] == "-"
            b = special_float("inf" if "inf" in v else "qnan", ty[1])
            mm = re.search(r"\((0x[0-9a-fA-F]+|\d+)\)", v)
            if mm:
                b |= int(mm.group(1), 0)
            return ("const", b | (int(sg) << (FBITS[ty[1]] - 1)))
        if k == "str":
            self.next()
            return ("bytes", parse_cstr(v))
        if k == "word":
            self.next()
            if v == "true":
                return ("const", 1)
            if v == "false":
                return ("const", 0)
            if v == "null":
                return ("const", 0)
            if v in ("undef", "poison"):
                return ("undef",)
            if v == "zeroinitializer":
                return ("zero",)
            if v in ("none",):
                return ("zero",)
            if v.startswith("f0x"):
                return ("const", int(v[3:], 16))
            if v in ("inf", "pinf", "ninf", "qnan", "nan"):
                return ("const", special_float(v, ty[1]))
            if v == "splat":
                self.exp("(")
                t = self.type()
                x = self.value(t)
                self.exp(")")
                return ("agg", [(t, x)] * ty[1])
            if v == "getelementptr":
                fl = []
                while self.peek()[1] in ("inbounds", "nuw", "nusw"):
                    fl.append(self.next()[1])
                self.exp("(")
                bt = self.type()
                self.exp(",")
                ops = self.typed_list(")")
                return ("gep", bt, ops)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast", "ptrtoaddr"):
                self.exp("(")
                t = self.type()
                x = self.value(t)
                self.exp("to")
                t2 = self.type()
                self.exp(")")
                return ("cexpr", v, t, x, t2)
            if v in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr"):
                while self.peek()[1] in ("nuw", "nsw"):
                    self.next()
                self.exp("(")
                ops = self.typed_list(")")
                return ("cbin", v, ops)
            if v in ("dso_local_equivalent", "no_cfi"):
                return self.value(ty)
            raise ParseError("value word %r" % v)
        if v in ("{", "[", "<"):
            self.next()
            end = {"{": "}", "[": "]", "<": ">"}[v]
            if v == "<" and self.acc("{"):
                xs = self.typed_list("}")
                self.exp(">")
                return ("agg", xs)
            return ("agg", self.typed_list(end))
        if k == "attr" or k == "meta":
            raise ParseError("value %r" % v)
        if v == "-":
            raise ParseError("neg")
        raise ParseError("value at %r %r" % (k, v))

    def typed_list(self, end):
        xs = []
        if self.acc(end):
            return xs
        while True:
            while self.peek()[1] in ("inrange",):
                self.next()
                self.skip_parens()
            t = self.type()
            xs.append((t, self.value(t)))
            if self.acc(end):
                return xs
            self.exp(",")


def special_float(v, ty):
    w, s = FBITS[ty], FSIG[ty]
    e = w - s - 1
    if v in ("inf", "pinf"):
        return ((1 << e) - 1) << s
    if v == "ninf":
        return ((1 << (e + 1)) - 1) << s
    return (((1 << e) - 1) << s) | (1 << (s - 1))


def parse_float(v, ty):
    if v.startswith("0x"):
        # legacy form: always the double pattern
        bits = int(v, 16)
        if ty == "double":
            return bits
        import struct
        return round_frac(frac_of_double(bits), ty, bits >> 63)
    neg = v.startswith("-")
    return round_frac(Fraction(v), ty, neg)


def frac_of_double(b):
    e = b >> 52 & 2047
    m = b & ((1 << 52) - 1)
    x = Fraction(m, 1) if e == 0 else Fraction(m + (1 << 52), 1)
    x *= Fraction(2) ** ((1 if e == 0 else e) - 1075)
    return -x if b >> 63 else x


def round_frac(x, ty, neg=None):
    """nearest-even rounding of an exact rational to the bits of float type ty"""
    w, s = FBITS[ty], FSIG[ty]
    eb = w - s - 1
    bias = (1 << (eb - 1)) - 1
    if neg is None:
        neg = x < 0
    sign = 1 if neg else 0
    x = abs(x)
    if x == 0:
        return sign << (w - 1)
    # exponent
    e = x.numerator.bit_length() - x.denominator.bit_length()
    while Fraction(2) ** e > x:
        e -= 1
    while Fraction(2) ** (e + 1) <= x:
        e += 1
    q = max(e, 1 - bias) - s
    m = x / Fraction(2) ** q
    f = m.numerator // m.denominator
    r = m - f
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and f & 1):
        f += 1
    if f >= 1 << (s + 1):
        f >>= 1
        q += 1
    be = q + s + bias if f >= (1 << s) else 0
    if be >= (1 << eb) - 1:
        return sign << (w - 1) | ((1 << eb) - 1) << s
    return sign << (w - 1) | be << s | (f & ((1 << s) - 1))


def parse_cstr(s):
    assert s.startswith('c"')
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


# ---------------------------------------------------------------- module

class Instr:
    __slots__ = ("op", "res", "ty", "a", "text")

    def __init__(self, op, res, ty, a, text):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.text = text


class Block:
    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.term = None
        self.succ = []


class Function:
    def __init__(self, module, name, header, lines):
        self.module = module
        self.name = name
        self.header = header
        self.lines = lines
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        _parse_function(self)
        self.parsed = True
        return self


class Module:
    def __init__(self, path):
        self.path = path
        self.funcs = {}
        self.decls = set()
        self.globals = {}
        self.aliases = {}
        self.types, tys = {}, {}
        self.asm = []
        self.triple = None
        self.layout = ""
        with open(path) as f:
            lines = f.read().split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                name = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l).group(1)
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.funcs[name] = Function(self, name, l, lines[i + 1:j])
                i = j
            elif l.startswith("declare "):
                m = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', l)
                if m:
                    self.decls.add(m.group(1))
            elif l.startswith("@"):
                name, rest = l.split(" = ", 1)
                if re.match(r"(?:[a-z_]+ )*alias ", rest):
                    tgt = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', rest)[-1]
                    self.aliases[name] = tgt
                else:
                    self.globals[name] = rest
            elif l.startswith("%") and " = type " in l:
                name, rest = l.split(" = type ", 1)
                if rest != "opaque":
                    tys[name] = rest
            elif l.startswith("module asm"):
                self.asm.append(l[len('module asm "'):-1])
            elif l.startswith("target datalayout"):
                self.layout = l.split('"')[1]
            elif l.startswith("target triple"):
                self.triple = l.split('"')[1]
            i += 1
        while tys:
            # a type may be defined after its first use
            done = []
            for name, rest in tys.items():
                try:
                    self.types[name] = P(tokenize(rest), self).type()
                    done.append(name)
                except KeyError:
                    pass
            if not done:
                break
            for name in done:
                del tys[name]
        self.ptrw = 64
        for part in self.layout.split("-"):
            m = re.fullmatch(r"p:(\d+):.*", part)
            if m:
                self.ptrw = int(m.group(1))
        self.big_endian = self.layout.startswith("E")

    def resolve(self, name):
        while name in self.aliases:
            name = self.aliases[name]
        return name

    # sizes
    def size(self, t):
        k = t[0]
        if k == "i":
            n = (t[1] + 7) // 8
            # store size rounded to ABI alignment
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == "f":
            return FBITS[t[1]] // 8
        if k == "ptr":
            return self.ptrw // 8
        if k == "array":
            return t[1] * self.size(t[2])
        if k == "vec":
            if t[2] == ("i", 1):
                return (t[1] + 7) // 8
            return t[1] * self.size(t[2])
        if k == "struct":
            off = 0
            ma = 1
            for e in t[1]:
                a = 1 if t[2] else self.align(e)
                ma = max(ma, a)
                off = (off + a - 1) // a * a + self.size(e)
            return (off + ma - 1) // ma * ma
        raise ParseError("size %r" % (t,))

    def align(self, t):
        k = t[0]
        if k == "i":
            n = (t[1] + 7) // 8
            p = 1
            while p < n:
                p *= 2
            return min(p, 16)
        if k == "f":
            return FBITS[t[1]] // 8
        if k == "ptr":
            return self.ptrw // 8
        if k == "array":
            return self.align(t[2])
        if k == "vec":
            return max(1, self.size(t))
        if k == "struct":
            return max([1] + ([] if t[2] else [self.align(e) for e in t[1]]))
        raise ParseError("align %r" % (t,))

    def offset(self, t, idx):
        off = 0
        for i, e in enumerate(t[1]):
            a = 1 if t[2] else self.align(e)
            off = (off + a - 1) // a * a
            if i == idx:
                return off
            off += self.size(e)
        raise ParseError("offset")

    def global_init(self, name):
        """(type, value) of a global's initialiser, or None for external"""
        rest = self.globals[name]
        toks = tokenize(strip_meta(rest))
        i = 0
        while toks[i][1] not in ("constant", "global"):
            if toks[i][1] in ("external",):
                return None
            i += 1
        p = P(toks, self)
        p.i = i + 1
        t = p.type()
        k, v = p.peek()
        if k == "eof" or v == ",":
            return (t, ("zero",))
        return (t, p.value(t))


def strip_meta(s):
    """drop trailing ', !x !y' metadata and attribute groups (outside strings)"""
    if "!" not in s and "#" not in s:
        return s
    out = []
    i = 0
    instr = False
    while i < len(s):
        c = s[i]
        if c == '"':
            instr = not instr
        if not instr and c == "!" and out and "".join(out).rstrip().endswith(","):
            o = "".join(out).rstrip()[:-1]
            return o
        out.append(c)
        i += 1
    return "".join(out)


FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract",
         "afn", "reassoc", "inbounds", "nusw", "volatile", "tail", "musttail", "notail"}

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub",
       "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi",
        "fptoui", "addrspacecast", "ptrtoaddr"}


def _parse_function(f):
    m = f.module
    # header parameters
    h = f.header
    k = h.index(f.name + "(") + len(f.name)
    depth = 0
    j = k
    q = False
    while True:
        c = h[j]
        if c == '"':
            q = not q
        elif not q and c == "(":
            depth += 1
        elif not q and c == ")":
            depth -= 1
            if depth == 0:
                break
        j += 1
    p = P(tokenize(h[k + 1:j]), m)
    params = []
    while p.peek()[0] != "eof":
        if p.acc("..."):
            break
        t = p.type()
        at = p.attrs()
        kk, nm = p.peek()
        if kk == "local":
            p.next()
        else:
            nm = "%" + str(len(params))
        params.append((nm, t, at))
        p.acc(",")
    f.params = params
    f.naked = False
    # blocks
    blocks = []
    cur = None
    lines = f.lines
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        i += 1
        s = l.strip()
        if not s or s.startswith(";") or s.startswith("#dbg"):
            continue
        if not l.startswith(" "):
            mm = re.match(r'("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if mm:
                cur = Block("%" + mm.group(1))
                blocks.append(cur)
                continue
        if s.startswith("switch ") and not s.rstrip().endswith("]"):
            while True:
                s += " " + lines[i].strip()
                i += 1
                if lines[i - 1].strip().startswith("]"):
                    break
        if cur is None:
            cur = Block("%" + str(len(params)))
            blocks.append(cur)
        ins = parse_instr(s, m)
        if ins is None:
            continue
        if ins.op == "phi":
            cur.phis.append(ins)
        elif ins.op in ("br", "condbr", "switch", "ret", "unreachable"):
            cur.term = ins
            if ins.op == "br":
                cur.succ = [ins.a[0]]
            elif ins.op == "condbr":
                cur.succ = [ins.a[1], ins.a[2]]
            elif ins.op == "switch":
                cur.succ = [ins.a[1]] + [x[1] for x in ins.a[2]]
        else:
            cur.ins.append(ins)
    f.blocks = {b.name: b for b in blocks}
    f.entry = blocks[0].name
    f.order = [b.name for b in blocks]


def parse_instr(s, m):
    s = strip_meta(re.sub(r"/\*.*?\*/", "", s))
    text = s
    toks = tokenize(s)
    p = P(toks, m)
    res = None
    if p.peek()[0] == "local" and p.peek(1)[1] == "=":
        res = p.next()[1]
        p.next()
    op = p.next()[1]
    flags = []
    while p.peek()[1] in FLAGS and op not in ("call",):
        flags.append(p.next()[1])
        if op in ("tail", "musttail", "notail"):
            break
    if op in ("tail", "musttail", "notail"):
        op = p.next()[1] if p.peek()[1] == "call" else op
    if flags and flags[0] == "call":
        op = "call"
    if op in ("musttail", "tail", "notail"):
        p.exp("call")
        op = "call"
    if op in BIN:
        t = p.type()
        a = p.value(t)
        p.exp(",")
        b = p.value(t)
        return Instr(op, res, t, (a, b, flags), text)
    if op == "fneg":
        t = p.type()
        return Instr(op, res, t, (p.value(t),), text)
    if op in CAST:
        t = p.type()
        a = p.value(t)
        p.exp("to")
        t2 = p.type()
        return Instr(op, res, t2, (t, a, flags), text)
    if op == "icmp" or op == "fcmp":
        pred = p.next()[1]
        while pred in FLAGS:
            pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(",")
        b = p.value(t)
        return Instr(op, res, t, (pred, a, b), text)
    if op == "select":
        ct = p.type()
        c = p.value(ct)
        p.exp(",")
        t = p.type()
        a = p.value(t)
        p.exp(",")
        t2 = p.type()
        b = p.value(t2)
        return Instr(op, res, t, (c, a, b, ct), text)
    if op == "phi":
        t = p.type()
        inc = []
        while True:
            p.exp("[")
            v = p.value(t)
            p.exp(",")
            l = p.next()[1]
            p.exp("]")
            inc.append((v, l))
            if not p.acc(","):
                break
        return Instr(op, res, t, inc, text)
    if op == "br":
        if p.acc("label"):
            return Instr("br", None, None, (p.next()[1],), text)
        p.type()
        c = p.value(("i", 1))
        p.exp(",")
        p.exp("label")
        a = p.next()[1]
        p.exp(",")
        p.exp("label")
        b = p.next()[1]
        return Instr("condbr", None, None, (c, a, b), text)
    if op == "switch":
        t = p.type()
        v = p.value(t)
        p.exp(",")
        p.exp("label")
        d = p.next()[1]
        p.exp("[")
        cases = []
        while not p.acc("]"):
            ct = p.type()
            cv = p.value(ct)
            p.exp(",")
            p.exp("label")
            cases.append((cv[1], p.next()[1]))
        return Instr("switch", None, t, (v, d, cases), text)
    if op == "ret":
        t = p.type()
        if t == ("void",):
            return Instr("ret", None, t, (None,), text)
        return Instr("ret", None, t, (p.value(t),), text)
    if op == "unreachable":
        return Instr("unreachable", None, None, (), text)
    if op == "freeze":
        t = p.type()
        return Instr(op, res, t, (p.value(t),), text)
    if op == "alloca":
        t = p.type()
        cnt = None
        al = 1
        while p.acc(","):
            if p.acc("align"):
                al = int(p.next()[1])
            else:
                ct = p.type()
                cnt = p.value(ct)
        return Instr(op, res, t, (cnt, al), text)
    if op == "load":
        atomic = p.acc("atomic")
        vol = p.acc("volatile")
        t = p.type()
        p.exp(",")
        pt = p.type()
        a = p.value(pt)
        return Instr(op, res, t, (a, atomic, vol or "volatile" in flags), text)
    if op == "store":
        atomic = p.acc("atomic")
        vol = p.acc("volatile")
        t = p.type()
        v = p.value(t)
        p.exp(",")
        pt = p.type()
        a = p.value(pt)
        return Instr(op, None, t, (v, a, atomic), text)
    if op == "getelementptr":
        while p.peek()[1] in ("inbounds", "nuw", "nusw"):
            flags.append(p.next()[1])
        bt = p.type()
        p.exp(",")
        ops = []
        while True:
            t = p.type()
            ops.append((t, p.value(t)))
            if not p.acc(","):
                break
        return Instr(op, res, bt, (ops, flags), text)
    if op == "extractvalue":
        t = p.type()
        v = p.value(t)
        idx = []
        while p.acc(","):
            idx.append(int(p.next()[1]))
        return Instr(op, res, t, (v, idx), text)
    if op == "insertvalue":
        t = p.type()
        v = p.value(t)
        p.exp(",")
        t2 = p.type()
        x = p.value(t2)
        idx = []
        while p.acc(","):
            idx.append(int(p.next()[1]))
        return Instr(op, res, t, (v, t2, x, idx), text)
    if op == "extractelement":
        t = p.type()
        v = p.value(t)
        p.exp(",")
        it = p.type()
        i = p.value(it)
        return Instr(op, res, t, (v, i), text)
    if op == "insertelement":
        t = p.type()
        v = p.value(t)
        p.exp(",")
        et = p.type()
        x = p.value(et)
        p.exp(",")
        it = p.type()
        i = p.value(it)
        return Instr(op, res, t, (v, x, i, et), text)
    if op == "shufflevector":
        t = p.type()
        a = p.value(t)
        p.exp(",")
        t2 = p.type()
        b = p.value(t2)
        p.exp(",")
        mt = p.type()
        mk = p.value(mt)
        return Instr(op, res, t, (a, b, mt, mk), text)
    if op == "fence":
        return Instr("fence", None, None, (), text)
    if op == "cmpxchg":
        p.acc("weak")
        p.acc("volatile")
        pt = p.type()
        a = p.value(pt)
        p.exp(",")
        t = p.type()
        c = p.value(t)
        p.exp(",")
        t = p.type()
        nv = p.value(t)
        return Instr(op, res, t, (a, c, nv), text)
    if op == "atomicrmw":
        p.acc("volatile")
        o = p.next()[1]
        pt = p.type()
        a = p.value(pt)
        p.exp(",")
        t = p.type()
        v = p.value(t)
        return Instr(op, res, t, (o, a, v), text)
    if op == "call":
        while True:
            k, v = p.peek()
            if v in FLAGS or v in ("fastcc", "ccc", "coldcc", "swiftcc", "arm_aapcscc", "arm_aapcs_vfpcc", "preserve_mostcc",
                                   "x86_stdcallcc", "x86_thiscallcc", "x86_fastcallcc", "x86_vectorcallcc", "aarch64_vector_pcs"):
                p.next()
            elif v == "cc":
                p.next()
                p.next()
            else:
                break
        p.attrs()
        t = p.type()
        if t[0] == "func":
            t = t[1]
        k, v = p.peek()
        if v == "asm":
            p.next()
            fl = []
            while p.peek()[1] in ("sideeffect", "inteldialect", "alignstack", "unwind"):
                fl.append(p.next()[1])
            tmpl = unesc(p.next()[1])
            p.exp(",")
            cons = unesc(p.next()[1])
            callee = ("asm", tmpl, cons, fl)
        else:
            callee = p.value(("ptr",))
        p.exp("(")
        args = []
        while not p.acc(")"):
            at = p.type()
            aa = p.attrs()
            if at == ("meta",):
                # metadata argument; skip to , or )
                d = 0
                while True:
                    x = p.peek()[1]
                    if d == 0 and x in (",", ")"):
                        break
                    if x == "(":
                        d += 1
                    if x == ")":
                        d -= 1
                    p.next()
                args.append((at, None, aa))
            else:
                args.append((at, p.value(at), aa))
            p.acc(",")
        return Instr("call", res, t, (callee, args), text)
    raise ParseError("instruction %r" % s)


def unesc(s):
    s = s[1:-1]
    return re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), s)

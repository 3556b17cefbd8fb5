"""Reads LLVM IR text and compiles each function, on demand, into Python closures over registers."""
import re
from . import bv

TOK = re.compile(r'''\s+|(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>%(?:"[^"]*"|[-\w.$]+))|(?P<glob>@(?:"[^"]*"|[-\w.$]+))'''
                 r'''|(?P<meta>!(?:[-\w.]+)?)|(?P<attr>\#\d+)|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|(?P<hex>0x[0-9A-Fa-f]+)|(?P<id>[\w.$]+)|(?P<p>\.\.\.|<\{|\}>|[\[\]{}()<>,=*:|])''')


def tokens(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ValueError("cannot read IR: %r" % s[i:i + 60])
        i = m.end()
        if m.lastgroup:
            out.append((m.lastgroup, m.group()))
    return out


class Unsupported(Exception):
    pass


# -- types: ('i', n) ('p',) ('v',) ('a', n, t) ('s', packed, ts) ('x', n, t) vectors, ('f', bits) -------
PTR = ("p",)
VOID = ("v",)


def align(t):
    k = t[0]
    if k == "i":
        n = max(1, (t[1] + 7) // 8)
        return min(16, 1 << (n - 1).bit_length())
    if k == "p":
        return 8
    if k == "a":
        return align(t[2])
    if k == "s":
        return 1 if t[1] else max([1] + [align(x) for x in t[2]])
    if k == "x":
        return size(t)
    if k == "f":
        return t[1] // 8
    return 1


def size(t):
    k = t[0]
    if k == "i":
        n = max(1, (t[1] + 7) // 8)
        a = align(t)
        return (n + a - 1) // a * a
    if k == "p":
        return 8
    if k == "a":
        return t[1] * size(t[2])
    if k == "s":
        o = 0
        for x in t[2]:
            if not t[1]:
                a = align(x)
                o = (o + a - 1) // a * a
            o += size(x)
        a = align(t)
        return (o + a - 1) // a * a
    if k == "x":
        return t[1] * size(t[2])
    if k == "f":
        return t[1] // 8
    if k == "v":
        return 0
    raise Unsupported("size of %s" % (t,))


def field_offset(t, i):
    if t[0] in "ax":
        return i * size(t[2])
    o = 0
    for j, x in enumerate(t[2]):
        if not t[1]:
            a = align(x)
            o = (o + a - 1) // a * a
        if j == i:
            return o
        o += size(x)
    raise IndexError


def width(t):
    return t[1] if t[0] == "i" else 64


ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "zeroext", "signext", "inreg",
         "nofree", "immarg", "returned", "nest", "allocptr", "allocalign", "dead_on_unwind", "writable", "nosync", "swiftself",
         "noext", "captures", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "align", "initializes",
         "dead_on_return", "nofpclass", "elementtype", "preallocated", "byref"}


class P:
    """A cursor over tokens."""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1][1]

    def opt(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def want(self, s):
        x = self.next()
        if x != s:
            raise ValueError("expected %s, got %s in %s" % (s, x, " ".join(y for _, y in self.t[:60])))

    def skip_parens(self):
        self.want("(")
        d = 1
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                raise Unsupported("address spaces")
        elif x == "void":
            t = VOID
        elif re.fullmatch(r"i\d+", x):
            t = ("i", int(x[1:]))
        elif x in ("float", "double"):
            t = ("f", 32 if x == "float" else 64)
        elif x == "[":
            n = int(self.next())
            self.want("x")
            t = ("a", n, self.type())
            self.want("]")
        elif x == "<":
            n = int(self.next())
            self.want("x")
            t = ("x", n, self.type())
            self.want(">")
        elif x in ("{", "<{"):
            ts, end = [], "}" if x == "{" else "}>"
            while not self.opt(end):
                ts.append(self.type())
                self.opt(",")
            t = ("s", x == "<{", tuple(ts))
        elif x.startswith("%"):
            t = self.m.named_type(x)
        elif x in ("metadata", "label", "token"):
            t = (x,)
        else:
            raise ValueError("type %s" % x)
        if self.peek() == "(":       # function type
            self.skip_parens()
        return t

    def attrs(self):
        while True:
            x = self.peek()
            if x in ATTRS:
                self.next()
                if x in ("align",):
                    self.opt("(") and (self.next(), self.want(")")) or self.next()
                elif self.peek() == "(":
                    self.skip_parens()
            elif self.kind() == "str" and self.i + 1 < len(self.t):
                self.next()
                if self.opt("="):
                    self.next()
            elif self.kind() == "attr":
                self.next()
            else:
                return

    def const(self, t):
        """A constant or operand of type t: ('r', name) for registers, else a Python value."""
        k, x = self.t[self.i]
        self.i += 1
        if k == "loc":
            return ("r", x)
        if k == "glob":
            return self.m.address(x)
        if k == "num":
            if t[0] == "f":
                return 0
            return int(x) & bv.mask(width(t))
        if k == "hex":
            return 0
        if x == "true":
            return 1
        if x == "false":
            return 0
        if x == "null":
            return 0
        if x in ("zeroinitializer", "undef", "poison"):
            return zero(t)
        if x == "none":
            return 0
        if x == "splat":
            self.want("(")
            et = self.type()
            v = self.const(et)
            self.want(")")
            return (v,) * t[1]
        if k == "str":
            return tuple(unescape(x))
        if x in ("[", "<", "{", "<{"):
            end = {"[": "]", "<": ">", "{": "}", "<{": "}>"}[x]
            out = []
            while not self.opt(end):
                et = self.type()
                out.append(self.const(et))
                self.opt(",")
            return tuple(out)
        if x in ("getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "sub", "add"):
            while self.peek() != "(":
                self.next()
            self.want("(")
            if x == "getelementptr":
                st = self.type()
                self.want(",")
                self.type()
                p = self.const(PTR)
                idx = []
                while self.opt(","):
                    if self.peek() == "inrange":
                        self.next()
                        self.skip_parens()
                    it = self.type()
                    idx.append((it, self.const(it)))
                self.want(")")
                off, cur = 0, st
                for j, (it, v) in enumerate(idx):
                    v = bv.sgn(v, width(it))
                    if j == 0:
                        off += v * size(st)
                    else:
                        off += field_offset(cur, v)
                        cur = cur[2][v] if cur[0] == "s" else cur[2]
                return p + off & bv.mask(64)
            t1 = self.type()
            a = self.const(t1)
            if x in ("add", "sub"):
                self.want(",")
                self.type()
                b = self.const(t1)
                self.want(")")
                return (a + b if x == "add" else a - b) & bv.mask(width(t1))
            self.want("to")
            t2 = self.type()
            self.want(")")
            return a & bv.mask(width(t2))
        if x == "blockaddress":
            raise Unsupported("blockaddress")
        raise ValueError("constant %s" % x)

    def operand(self):
        t = self.type()
        self.attrs()
        return t, self.const(t)


def unescape(s):
    s = s[s.index('"') + 1:-1]
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


def zero(t):
    if t[0] in "ax":
        return (zero(t[2]),) * t[1]
    if t[0] == "s":
        return tuple(zero(x) for x in t[2])
    return 0


class Function:
    def __init__(self, name, ret, params, body):
        self.name, self.ret, self.params, self.body = name, ret, params, body
        self.blocks = None


class Module:
    def __init__(self, text):
        self.types, self.globals, self.functions, self.declared = {}, {}, {}, set()
        self.aliases = {}
        self._addr, self.by_id, self.next = {}, {}, 1
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            s = lines[i]
            if s.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', s)
                self.functions["@" + m.group(1)] = (s, lines[i + 1:j])
                i = j
            elif s.startswith("declare"):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', s)
                self.declared.add("@" + m.group(1))
            elif s.startswith("@"):
                n = re.match(r'@("[^"]*"|[-\w.$]+) = ', s)
                if " alias " in s.split("=", 1)[1][:60]:
                    self.aliases["@" + n.group(1)] = re.findall(r'@(?:"[^"]*"|[-\w.$]+)', s)[1]
                else:
                    self.globals["@" + n.group(1)] = s[n.end():]
            elif s.startswith("%") and " = type " in s:
                n, d = s.split(" = type ", 1)
                self.types[n] = d
            i += 1

    def named_type(self, x):
        d = self.types[x]
        if isinstance(d, str):
            d = ("s", False, ()) if d == "opaque" else P(self, tokens(d)).type()
            self.types[x] = d
        return d

    def address(self, name):
        """Globals and functions get object numbers of their own."""
        while name in self.aliases:
            name = self.aliases[name]
        a = self._addr.get(name)
        if a is None:
            a = self.next << 32
            self.by_id[self.next] = name
            self.next += 1
            self._addr[name] = a
        return a

    def global_init(self, name):
        """(size, bytes, constant?) of a global."""
        s = self.globals[name]
        ts = tokens(re.sub(r', !.*$', '', s))
        p = P(self, ts)
        const = True
        external = False
        while True:
            x = p.next()
            if x == "external":
                external = True
            if x in ("constant", "global"):
                const = x == "constant"
                break
            if x == "thread_local" and p.peek() == "(":
                p.skip_parens()
        t = p.type()
        n = size(t)
        if external:
            raise Unsupported("external global %s" % name)
        v = p.const(t)
        out = bytearray(n)
        self.lay(t, v, out, 0)
        return n, out, const

    def lay(self, t, v, out, at):
        if t[0] == "a" and t[2] == ("i", 8):
            out[at:at + t[1]] = bytes(v)
        elif t[0] in "ax":
            for i in range(t[1]):
                self.lay(t[2], v[i], out, at + i * size(t[2]))
        elif t[0] == "s":
            for i, x in enumerate(t[2]):
                self.lay(x, v[i], out, at + field_offset(t, i))
        else:
            n = size(t)
            out[at:at + n] = (v & bv.mask(8 * n)).to_bytes(n, "little")


STRIP = re.compile(r'(, )?!(?:[-\w.]+ )?!?\w[-\w.]*(\([^)]*\))?')


class Compiler:
    """Compiles one function: every block becomes a Python function (R, S) -> next block."""

    def __init__(self, mod, name):
        self.m, self.name = mod, name
        head, self.lines = mod.functions[name]
        p = P(mod, tokens(head[:head.rindex("{")].split(" personality ")[0]))
        # parameters
        start = next(i for i, t in enumerate(p.t) if t[1] == name)
        p.i = start + 1
        p.want("(")
        self.reg, self.nreg = {}, 1
        n = 0
        while not p.opt(")"):
            if p.opt("..."):
                continue
            p.type()
            p.attrs()
            if p.kind() == "loc":
                self.slot(p.next())
            else:
                self.slot("%" + str(n))
            n += 1
            p.opt(",")
        self.nparams = n
        self.unnamed = n
        self.consts = []

    def slot(self, name):
        if name not in self.reg:
            self.reg[name] = self.nreg
            self.nreg += 1
        return self.reg[name]

    def src(self, v):
        if isinstance(v, tuple) and v and v[0] == "r":
            return "R[%d]" % self.slot(v[1])
        return repr(self.tup(v))

    def tup(self, v):
        return v

    def compile(self):
        blocks, cur, name = [], None, None
        first = True
        for s in self.lines:
            s = s.rstrip()
            if not s:
                continue
            if not s.startswith(" "):
                m = re.match(r'("[^"]*"|[-\w.$]+):', s)
                if m:
                    cur = []
                    blocks.append((m.group(1).strip('"') if False else m.group(1), cur))
                    first = False
                continue
            if first:
                cur = []
                blocks.append((str(self.unnamed), cur))
                first = False
            cur.append(s.strip())
        # join multi-line switches
        for _, ls in blocks:
            i = 0
            while i < len(ls):
                if ls[i].startswith("switch ") and not ls[i].rstrip().endswith("]") and "]" not in ls[i]:
                    j = i + 1
                    while not ls[j].startswith("]"):
                        j += 1
                    ls[i] = " ".join(ls[i:j + 1])
                    del ls[i + 1:j + 1]
                elif ls[i].startswith(("to label", "filter", "catch", "cleanup")):
                    ls[i - 1] += " " + ls[i]
                    del ls[i]
                    continue
                i += 1
        self.index = {n: i for i, (n, _) in enumerate(blocks)}
        self.phis = {}
        for n, ls in blocks:
            ph = []
            for s in ls:
                m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = phi ', s)
                if not m:
                    break
                p = P(self.m, tokens(s[m.end():].split(", !")[0]))
                while p.peek() in ("fast", "nnan", "ninf", "nsz"):
                    p.next()
                t = p.type()
                inc = {}
                while True:
                    p.want("[")
                    v = p.const(t)
                    p.want(",")
                    inc[p.next()[1:]] = v
                    p.want("]")
                    if not p.opt(","):
                        break
                ph.append((m.group(1), inc))
            self.phis[n] = ph
        code = []
        for i, (n, ls) in enumerate(blocks):
            self.block = n
            body = []
            for s in ls[len(self.phis[n]):]:
                body += self.inst(s)
            code.append("def b%d(R, S):\n" % i + "".join("    " + x + "\n" for x in body) + "\n")
        env = dict(ENV)
        env["K"] = self.consts
        exec(compile("".join(code), self.name, "exec"), env)
        self.blocks = [env["b%d" % i] for i in range(len(blocks))]
        self.labels = [n for n, _ in blocks]
        return self

    def goto(self, label):
        label = label[1:]
        ph = self.phis[label]
        out = []
        if ph:
            dst = ", ".join("R[%d]" % self.slot(r) for r, _ in ph)
            src = ", ".join(self.src(inc[self.block]) for _, inc in ph)
            out.append("%s = %s" % (dst, src))
        out.append("return %d" % self.index[label])
        return out

    def inst(self, s):
        s0 = s
        k = s.find(", !")
        if k >= 0:
            s = s[:k]
        ts = tokens(s)
        p = P(self.m, ts)
        dst = None
        if p.kind() == "loc" and p.peek(1) == "=":
            dst = p.next()
            p.next()
        op = p.next()
        f = getattr(self, "i_" + op, None)
        if f is None:
            return ["raise Unsupported(%r)" % s0]
        try:
            r = f(p, dst)
        except Unsupported as e:
            return ["raise Unsupported(%r)" % ("%s: %s" % (e, s0))]
        if isinstance(r, str):
            return ["R[%d] = %s" % (self.slot(dst), r)]
        return r

    # -- arithmetic
    def flags(self, p):
        while p.peek() in ("nuw", "nsw", "exact", "disjoint", "samesign", "nneg", "inbounds", "volatile", "fast", "nusw", "atomic"):
            p.next()

    def binary(self, p):
        self.flags(p)
        t = p.type()
        a = p.const(t)
        p.want(",")
        b = p.const(t)
        return t, self.src(a), self.src(b)

    def elem(self, t, fmt, *xs):
        """fmt over scalars, or over the lanes of vectors."""
        if t[0] == "x":
            names = "abcd"[:len(xs)]
            return "tuple([%s for %s in zip(%s)])" % (fmt.format(*names), ",".join(names) + ("," if len(xs) == 1 else ""), ", ".join(xs))
        return fmt.format(*xs)

    def sw(self, t):
        return width(t[2]) if t[0] == "x" else width(t)

    def simple(fmt):
        def f(self, p, dst):
            t, a, b = self.binary(p)
            w = self.sw(t)
            return self.elem(t, fmt.replace("W", str(w)).replace("M", hex(bv.mask(w))), a, b)
        return f
    i_add = simple("({0} + {1} & M)")
    i_sub = simple("({0} - {1} & M)")
    i_mul = simple("({0} * {1} & M)")
    i_and = simple("({0} & {1})")
    i_or = simple("({0} | {1})")
    i_xor = simple("({0} ^ {1})")
    i_shl = simple("shl({0}, {1}, W)")
    i_lshr = simple("lshr({0}, {1}, W)")
    i_ashr = simple("ashr({0}, {1}, W)")
    i_udiv = simple("S.div(udiv, {0}, {1}, W)")
    i_urem = simple("S.div(urem, {0}, {1}, W)")
    i_sdiv = simple("S.div(sdiv, {0}, {1}, W)")
    i_srem = simple("S.div(srem, {0}, {1}, W)")

    def i_icmp(self, p, dst):
        self.flags(p)
        c = p.next()
        self.flags(p)
        t = p.type()
        a = p.const(t)
        p.want(",")
        b = p.const(t)
        w = self.sw(t)
        fm = {"eq": "eq({0}, {1}, W)", "ne": "not_(eq({0}, {1}, W))", "ult": "ult({0}, {1})", "ugt": "ult({1}, {0})",
              "ule": "not_(ult({1}, {0}))", "uge": "not_(ult({0}, {1}))", "slt": "slt({0}, {1}, W)", "sgt": "slt({1}, {0}, W)",
              "sle": "not_(slt({1}, {0}, W))", "sge": "not_(slt({0}, {1}, W))"}[c]
        return self.elem(t, fm.replace("W", str(w)), self.src(a), self.src(b))

    def cast(self, p):
        self.flags(p)
        t = p.type()
        a = p.const(t)
        p.want("to")
        return t, self.src(a), p.type()

    def i_zext(self, p, dst):
        t, a, t2 = self.cast(p)
        return self.elem(t, "zext({0}, %d, %d)" % (self.sw(t), self.sw(t2)), a)

    def i_sext(self, p, dst):
        t, a, t2 = self.cast(p)
        return self.elem(t, "sext({0}, %d, %d)" % (self.sw(t), self.sw(t2)), a)

    def i_trunc(self, p, dst):
        t, a, t2 = self.cast(p)
        return self.elem(t, "trunc({0}, %d)" % self.sw(t2), a)

    def i_ptrtoint(self, p, dst):
        t, a, t2 = self.cast(p)
        return "trunc(%s, %d)" % (a, width(t2))
    i_ptrtoaddr = i_ptrtoint

    def i_inttoptr(self, p, dst):
        return self.cast(p)[1]

    def i_bitcast(self, p, dst):
        t, a, t2 = self.cast(p)
        if t[0] == t2[0] and t[0] != "x":
            return a
        self.consts.append((t, t2))
        return "bitcast(%s, *K[%d])" % (a, len(self.consts) - 1)

    def i_freeze(self, p, dst):
        t, v = p.operand()
        return self.src(v)

    def i_select(self, p, dst):
        self.flags(p)
        ct, c = p.operand()
        p.want(",")
        t, a = p.operand()
        p.want(",")
        _, b = p.operand()
        if ct[0] == "x":
            return "tuple([ite(c, a, b, %d) for c, a, b in zip(%s, %s, %s)])" % (self.sw(t), self.src(c), self.src(a), self.src(b))
        if t[0] in "sxa":
            return "S.pick(%s, %s, %s)" % (self.src(c), self.src(a), self.src(b))
        return "ite(%s, %s, %s, %d)" % (self.src(c), self.src(a), self.src(b), width(t))

    # -- memory
    def i_alloca(self, p, dst):
        if p.opt("inalloca"):
            pass
        t = p.type()
        n = 1
        if p.opt(","):
            if p.peek() != "align":
                _, n = p.operand()
        if n != 1:
            raise Unsupported("variable alloca")
        return "S.alloc(%d)" % size(t)

    def i_load(self, p, dst):
        self.flags(p)
        t = p.type()
        p.want(",")
        _, a = p.operand()
        return self.load(t, self.src(a))

    def load(self, t, a):
        if t[0] in "ip" and width(t) % 8 == 0:
            return "S.load(%s, %d)" % (a, width(t) // 8)
        if t == ("i", 1):
            return "trunc(S.load(%s, 1), 1)" % a
        if t[0] in "ip":
            return "trunc(S.load(%s, %d), %d)" % (a, size(t), width(t))
        self.consts.append(t)
        return "S.load_agg(%s, K[%d])" % (a, len(self.consts) - 1)

    def i_store(self, p, dst):
        self.flags(p)
        t, v = p.operand()
        p.want(",")
        _, a = p.operand()
        if t[0] in "ip":
            w = width(t)
            src = self.src(v)
            if w % 8:
                src = "zext(%s, %d, %d)" % (src, w, 8 * size(t))
            return ["S.store(%s, %s, %d)" % (self.src(a), src, size(t) if w % 8 else w // 8)]
        self.consts.append(t)
        return ["S.store_agg(%s, %s, K[%d])" % (self.src(a), self.src(v), len(self.consts) - 1)]

    def i_getelementptr(self, p, dst):
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        st = p.type()
        p.want(",")
        pt, b = p.operand()
        off, terms, cur = 0, [], st
        j = 0
        while p.opt(","):
            it, v = p.operand()
            reg = isinstance(v, tuple) and v and v[0] == "r"
            if j > 0 and cur[0] == "s":
                off += field_offset(cur, v)
                cur = cur[2][v]
                j += 1
                continue
            if j > 0:
                cur = cur[2]
            z = size(cur)
            if reg:
                s = self.src(v)
                if width(it) < 64:
                    s = "sext(%s, %d, 64)" % (s, width(it))
                terms.append("%s * %d" % (s, z) if z != 1 else s)
            else:
                off += bv.sgn(v, width(it)) * z
            j += 1
        e = " + ".join([self.src(b)] + terms + ([str(off)] if off else []))
        return "(%s & 0xffffffffffffffff)" % e if terms or off else e

    def i_extractvalue(self, p, dst):
        t, v = p.operand()
        e = self.src(v)
        while p.opt(","):
            e += "[%s]" % p.next()
        return e

    def i_insertvalue(self, p, dst):
        t, v = p.operand()
        p.want(",")
        _, x = p.operand()
        idx = []
        while p.opt(","):
            idx.append(int(p.next()))
        return "put(%s, %s, %s)" % (self.src(v), self.src(x), tuple(idx))

    def i_extractelement(self, p, dst):
        t, v = p.operand()
        p.want(",")
        _, i = p.operand()
        return "%s[S.number(%s)]" % (self.src(v), self.src(i))

    def i_insertelement(self, p, dst):
        t, v = p.operand()
        p.want(",")
        _, x = p.operand()
        p.want(",")
        _, i = p.operand()
        return "put(%s, %s, (S.number(%s),))" % (self.src(v), self.src(x), self.src(i))

    def i_shufflevector(self, p, dst):
        t, a = p.operand()
        p.want(",")
        _, b = p.operand()
        p.want(",")
        mt, m = p.operand()
        return "shuffle(%s, %s, %r)" % (self.src(a), self.src(b), m)

    # -- control
    def i_br(self, p, dst):
        if p.opt("label"):
            return self.goto(p.next())
        p.type()
        c = p.const(("i", 1))
        p.want(",")
        p.want("label")
        a = p.next()
        p.want(",")
        p.want("label")
        b = p.next()
        return ["c = %s" % self.src(c), "if c.__class__ is not int: c = S.branch(c)", "if c:"] + \
            ["    " + x for x in self.goto(a)] + self.goto(b)

    def i_switch(self, p, dst):
        t, v = p.operand()
        p.want(",")
        p.want("label")
        d = p.next()
        p.want("[")
        cases = []
        while not p.opt("]"):
            p.type()
            k = p.const(t)
            p.want(",")
            p.want("label")
            cases.append((k, p.next()))
        out = ["c = %s" % self.src(v), "if c.__class__ is not int: c = S.switch(c, %r)" % ([k for k, _ in cases],)]
        for k, l in cases:
            out.append("if c == %d:" % k)
            out += ["    " + x for x in self.goto(l)]
        return out + self.goto(d)

    def i_ret(self, p, dst):
        if p.peek() == "void":
            return ["R[0] = None", "return -1"]
        t, v = p.operand()
        return ["R[0] = %s" % self.src(v), "return -1"]

    def i_unreachable(self, p, dst):
        return ["S.unreachable()"]

    def i_tail(self, p, dst):
        p.next()
        return self.i_call(p, dst)
    i_musttail = i_notail = i_tail

    def i_fence(self, p, dst):
        return []

    def i_invoke(self, p, dst):
        r = self.i_call(p, dst)
        while p.peek() != "label":
            p.next()
        p.next()
        return r + self.goto(p.next())

    def i_landingpad(self, p, dst):
        return ["raise Unsupported('unwinding')"]
    i_resume = i_landingpad

    def i_call(self, p, dst):
        while p.peek() in ("fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "fast", "nnan"):
            p.next()
        p.attrs()
        t = p.type()
        callee = p.const(PTR) if p.kind() != "glob" else p.next()
        p.want("(")
        args, types = [], []
        while not p.opt(")"):
            if p.peek() == "metadata":
                return []
            at = p.type()
            p.attrs()
            args.append(self.src(p.const(at)))
            types.append(at)
            p.opt(",")
        if isinstance(callee, tuple):
            e = "S.call_ptr(%s, [%s])" % (self.src(callee), ", ".join(args))
        elif isinstance(callee, int):
            e = "S.call_ptr(%d, [%s])" % (callee, ", ".join(args))
        elif callee.startswith("@llvm."):
            e = intrinsic(callee[1:], args, types, t)
            if e is None:
                return []
        else:
            while callee in self.m.aliases:
                callee = self.m.aliases[callee]
            e = "S.call(%r, [%s])" % (callee, ", ".join(args))
        if dst is None:
            return [e]
        return ["R[%d] = %s" % (self.slot(dst), e)]

    del simple


def intrinsic(name, a, types, ret):
    n = name[5:]
    root = n.split(".")
    if n.startswith(("lifetime", "assume", "experimental.noalias", "dbg", "donothing", "invariant", "prefetch", "sideeffect", "va_")):
        return None
    if n.startswith(("memcpy", "memmove")):
        return "S.copy(%s, %s, %s)" % (a[0], a[1], a[2])
    if n.startswith("memset"):
        return "S.fill(%s, %s, %s)" % (a[0], a[1], a[2])
    if n in ("trap", "ubsantrap", "debugtrap"):
        return "S.abort('trap')"
    if root[0] == "expect":
        return a[0]
    if root[0] == "is" and root[1] == "constant":
        return "0"
    if root[0] == "threadlocal":
        return a[0]
    if root[0] == "objectsize":
        return hex(bv.mask(64))
    if root[0] == "ptrmask":
        return "(%s & %s)" % (a[0], a[1])
    t = types[0] if types else None
    if t is None:
        raise Unsupported(name)
    w = width(t[2]) if t[0] == "x" else width(t)

    def el(fmt, *xs):
        fmt = fmt.replace("W", str(w))
        if t[0] == "x":
            names = "abcd"[:len(xs)]
            return "tuple([%s for %s in zip(%s)])" % (fmt.format(*names), ",".join(names) + ("," if len(xs) == 1 else ""), ", ".join(xs))
        return fmt.format(*xs)
    if len(root) > 2 and root[1:3] == ["with", "overflow"]:
        return "%s_o(%s, %s, %d)" % (root[0], a[0], a[1], w)
    if root[0] in ("umin", "umax", "smin", "smax"):
        lt = "ult({0}, {1})" if root[0][0] == "u" else "slt({0}, {1}, W)"
        x, y = ("{0}", "{1}") if root[0].endswith("min") else ("{1}", "{0}")
        return el("ite(%s, %s, %s, W)" % (lt, x, y), a[0], a[1])
    if root[:2] == ["uadd", "sat"]:
        return el("uadd_sat({0}, {1}, W)", a[0], a[1])
    if root[:2] == ["usub", "sat"]:
        return el("ite(ult({0}, {1}), 0, sub({0}, {1}, W), W)", a[0], a[1])
    if root[0] in ("ctlz", "cttz", "ctpop", "bswap", "bitreverse", "abs"):
        return el(root[0] + "({0}, W)", a[0])
    if root[0] in ("fshl", "fshr"):
        return el(root[0] + "({0}, {1}, {2}, W)", a[0], a[1], a[2])
    if root[0] in ("ucmp", "scmp"):
        return "cmp3(%s, %s, %d, %d, %s)" % (a[0], a[1], w, width(ret), root[0] == "scmp")
    if root[:2] == ["vector", "reduce"]:
        return "reduce(%r, %s, %d)" % (root[2], a[0], w)
    raise Unsupported(name)


# -- helpers of the compiled code ---------------------------------------------------------------------
def put(v, x, idx):
    v = list(v)
    v[idx[0]] = x if len(idx) == 1 else put(v[idx[0]], x, idx[1:])
    return tuple(v)


def shuffle(a, b, m):
    both = tuple(a) + tuple(b)
    return tuple(both[i] for i in m)


def bitcast(v, t, t2):
    if t[0] == "x":
        w = width(t[2])
        v = bv.join([(w, x) for x in v])
    if t2[0] == "x":
        w = width(t2[2])
        return tuple(bv.ext(v, i * w, w) for i in range(t2[1]))
    return v


def uadd_o(a, b, w):
    s = bv.add(bv.zext(a, w, w + 1), bv.zext(b, w, w + 1), w + 1)
    return (bv.add(a, b, w), bv.ext(s, w, 1))


def usub_o(a, b, w):
    return (bv.sub(a, b, w), bv.ult(a, b))


def umul_o(a, b, w):
    s = bv.mul(bv.zext(a, w, 2 * w), bv.zext(b, w, 2 * w), 2 * w)
    return (bv.mul(a, b, w), bv.not_(bv.eq(bv.ext(s, w, w), 0, w)))


def sadd_o(a, b, w):
    s = bv.add(bv.sext(a, w, w + 1), bv.sext(b, w, w + 1), w + 1)
    return (bv.add(a, b, w), bv.xor(bv.ext(s, w, 1), bv.ext(s, w - 1, 1), 1))


def ssub_o(a, b, w):
    s = bv.sub(bv.sext(a, w, w + 1), bv.sext(b, w, w + 1), w + 1)
    return (bv.sub(a, b, w), bv.xor(bv.ext(s, w, 1), bv.ext(s, w - 1, 1), 1))


def smul_o(a, b, w):
    s = bv.mul(bv.sext(a, w, 2 * w), bv.sext(b, w, 2 * w), 2 * w)
    r = bv.mul(a, b, w)
    return (r, bv.not_(bv.eq(s, bv.sext(r, w, 2 * w), 2 * w)))


def uadd_sat(a, b, w):
    r, o = uadd_o(a, b, w)
    return bv.ite(o, bv.mask(w), r, w)


def ctlz(x, w):
    r = w
    for i in range(w):
        r = bv.ite(bv.ext(x, i, 1), w - 1 - i, r, w)
    return r


def cttz(x, w):
    r = w
    for i in reversed(range(w)):
        r = bv.ite(bv.ext(x, i, 1), i, r, w)
    return r


def ctpop(x, w):
    r = 0
    for i in range(w):
        r = bv.add(r, bv.zext(bv.ext(x, i, 1), 1, w), w)
    return r


def bswap(x, w):
    return bv.join([(8, bv.ext(x, i, 8)) for i in reversed(range(0, w, 8))])


def bitreverse(x, w):
    return bv.join([(1, bv.ext(x, i, 1)) for i in reversed(range(w))])


def abs_(x, w):
    return bv.ite(bv.ext(x, w - 1, 1), bv.sub(0, x, w), x, w)


def fshl(a, b, c, w):
    if c.__class__ is bv.X:
        raise Unsupported("symbolic funnel shift")
    c %= w
    return bv.or_(bv.shl(a, c, w), bv.lshr(b, w - c, w), w) if c else a


def fshr(a, b, c, w):
    if c.__class__ is bv.X:
        raise Unsupported("symbolic funnel shift")
    c %= w
    return bv.or_(bv.shl(a, w - c, w), bv.lshr(b, c, w), w) if c else b


def cmp3(a, b, w, rw, signed):
    lt = bv.slt(a, b, w) if signed else bv.ult(a, b)
    return bv.ite(lt, bv.mask(rw), bv.ite(bv.eq(a, b, w), 0, 1, rw), rw)


def reduce(kind, v, w):
    f = {"add": bv.add, "and": bv.and_, "or": bv.or_, "xor": bv.xor, "mul": bv.mul}.get(kind)
    if f is None:
        raise Unsupported("reduction " + kind)
    r = v[0]
    for x in v[1:]:
        r = f(r, x, w)
    return r


ENV = dict(Unsupported=Unsupported, put=put, shuffle=shuffle, bitcast=bitcast, uadd_o=uadd_o, usub_o=usub_o, umul_o=umul_o,
           sadd_o=sadd_o, ssub_o=ssub_o, smul_o=smul_o, uadd_sat=uadd_sat, ctlz=ctlz, cttz=cttz, ctpop=ctpop, bswap=bswap,
           bitreverse=bitreverse, abs=abs_, fshl=fshl, fshr=fshr, cmp3=cmp3, reduce=reduce, sub=bv.sub)
for _n in ("eq", "ult", "slt", "not_", "ite", "zext", "sext", "trunc", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
    ENV[_n] = getattr(bv, _n)

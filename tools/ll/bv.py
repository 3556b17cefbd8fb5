"""Bit-vector terms.  Concrete values are Python ints (unsigned); only symbolic ones are `X`."""
import z3

_cons = {}


class X:
    """A symbolic term of `w` bits: 'sym', 'cat' (parts, least significant first), 'ext', or an operation."""
    __slots__ = ("op", "w", "a", "z", "id")

    def __hash__(self):
        return self.id

    # ints on either side are taken at this term's width
    def __add__(self, o): return add(self, o, self.w)
    __radd__ = __add__
    def __sub__(self, o): return sub(self, o, self.w)
    def __rsub__(self, o): return sub(o, self, self.w)
    def __mul__(self, o): return mul(self, o, self.w)
    __rmul__ = __mul__
    def __and__(self, o): return and_(self, o, self.w)
    __rand__ = __and__
    def __or__(self, o): return or_(self, o, self.w)
    __ror__ = __or__
    def __xor__(self, o): return xor(self, o, self.w)
    __rxor__ = __xor__
    def __eq__(self, o): return eq(self, o, self.w)
    def __ne__(self, o): return not_(eq(self, o, self.w))
    def __lt__(self, o): return ult(self, o, self.w)
    def __gt__(self, o): return ult(o, self, self.w)
    def __le__(self, o): return not_(ult(o, self, self.w))
    def __ge__(self, o): return not_(ult(self, o, self.w))
    def __bool__(self): raise TypeError("truth of a symbolic term")
    def __index__(self): raise TypeError("a symbolic term used as a number")
    def __repr__(self): return show(self)


def mk(op, w, *a):
    k = (op, w) + tuple(x.id if x.__class__ is X else ("c", x) for x in a)
    x = _cons.get(k)
    if x is None:
        x = X()
        x.op, x.w, x.a, x.z, x.id = op, w, a, None, len(_cons) + 1
        _cons[k] = x
    return x


def show(x, d=4):
    if x.__class__ is not X:
        return hex(x) if x > 9 else str(x)
    if x.op == "sym":
        return x.a[0]
    if d == 0:
        return "..."
    if x.op == "cat":
        return "{" + ",".join("%s:%d" % (show(v, d - 1), w) for w, v in reversed(parts(x))) + "}"
    return "%s(%s)" % (x.op, ", ".join(show(v, d - 1) if v.__class__ in (X, int) else str(v) for v in x.a))


def sym(name, w):
    return mk("sym", w, name)


def mask(w):
    return (1 << w) - 1


# -- pieces -----------------------------------------------------------------------------------------
def parts(x, w=None):
    """[(width, value)], least significant first."""
    if x.__class__ is X:
        if x.op == "cat":
            return [(x.a[i], x.a[i + 1]) for i in range(0, len(x.a), 2)]
        return [(x.w, x)]
    return [(w, x)]


def base(x):
    """(term, lowest bit) of an extract."""
    return (x.a[0], x.a[1]) if x.op == "ext" else (x, 0)


def join(ps):
    """The term of the parts, canonical: adjacent constants and adjacent slices of one term merge."""
    out = []
    for w, v in ps:
        if w == 0:
            continue
        if v.__class__ is X and v.op == "cat":
            sub_ = parts(v)
        else:
            sub_ = [(w, v)]
        for w, v in sub_:
            if out:
                w0, v0 = out[-1]
                if v.__class__ is not X and v0.__class__ is not X:
                    out[-1] = (w0 + w, v0 | v << w0)
                    continue
                if v.__class__ is X and v0.__class__ is X:
                    b0, l0 = base(v0)
                    b1, l1 = base(v)
                    if b0 is b1 and l0 + w0 == l1:
                        out[-1] = (w0 + w, ext(b0, l0, w0 + w))
                        continue
            out.append((w, v))
    if len(out) == 1:
        return out[0][1]
    flat = []
    for w, v in out:
        flat += [w, v]
    return mk("cat", sum(w for w, _ in out), *flat)


def ext(x, lo, w):
    """Bits lo .. lo+w of x."""
    if x.__class__ is not X:
        return x >> lo & mask(w)
    if lo == 0 and w == x.w:
        return x
    if x.op == "cat":
        ps, at = [], 0
        for pw, v in parts(x):
            a, b = max(at, lo), min(at + pw, lo + w)
            if a < b:
                ps.append((b - a, ext(v, a - at, b - a)))
            at += pw
        return join(ps)
    if x.op == "ext":
        return ext(x.a[0], x.a[1] + lo, w)
    if x.op in ("and", "or", "xor") and w <= 8:
        return {"and": and_, "or": or_, "xor": xor}[x.op](ext(x.a[0], lo, w), ext(x.a[1], lo, w), w)
    if x.op == "ite":
        a, b = x.a[1], x.a[2]
        if a.__class__ is not X or b.__class__ is not X:
            return ite(x.a[0], ext(a, lo, w), ext(b, lo, w), w)
    return mk("ext", w, x, lo)


def zext(x, w0, w):
    return x if x.__class__ is not X else join([(w0, x), (w - w0, 0)])


def sext(x, w0, w):
    if x.__class__ is not X:
        return x | (mask(w) ^ mask(w0)) if x >> (w0 - 1) & 1 else x
    top = ext(x, w0 - 1, 1)
    if top.__class__ is not X:
        return join([(w0, x), (w - w0, mask(w - w0) if top else 0)])
    if w0 == 1:
        return ite(x, mask(w), 0, w)
    return mk("sext", w, x)


def trunc(x, w):
    return ext(x, 0, w)


def split(x, y, w):
    """The parts of both, cut at the same places."""
    px, py = parts(x, w), parts(y, w)
    out, i, j, ox, oy = [], 0, 0, 0, 0
    while i < len(px):
        n = min(px[i][0] - ox, py[j][0] - oy)
        out.append((n, ext(px[i][1], ox, n), ext(py[j][1], oy, n)))
        ox += n
        oy += n
        if ox == px[i][0]:
            i, ox = i + 1, 0
        if oy == py[j][0]:
            j, oy = j + 1, 0
    return out


# -- operations -------------------------------------------------------------------------------------
def order(x, y):
    """Constants go last; terms in order of creation."""
    if x.__class__ is not X or (y.__class__ is X and y.id < x.id):
        return y, x
    return x, y


def add(x, y, w):
    if x.__class__ is not X and y.__class__ is not X:
        return x + y & mask(w)
    x, y = order(x, y)
    if y.__class__ is not X:
        y &= mask(w)
        if y == 0:
            return x
        if x.op == "add" and x.a[1].__class__ is not X:
            return add(x.a[0], x.a[1] + y & mask(w), w)
    return mk("add", w, x, y)


def sub(x, y, w):
    if y.__class__ is not X:
        return add(x, -y & mask(w), w)
    if x is y:
        return 0
    if x.__class__ is X and x.op == "add":
        if x.a[0] is y:
            return x.a[1]
        if x.a[1] is y:
            return x.a[0]
    return mk("sub", w, x, y)


def mul(x, y, w):
    if x.__class__ is not X and y.__class__ is not X:
        return x * y & mask(w)
    x, y = order(x, y)
    if y.__class__ is not X:
        y &= mask(w)
        if y == 0:
            return 0
        if y == 1:
            return x
        if y & (y - 1) == 0:
            return shl(x, y.bit_length() - 1, w)
    return mk("mul", w, x, y)


def and_(x, y, w):
    if x.__class__ is not X and y.__class__ is not X:
        return x & y
    x, y = order(x, y)
    if x is y:
        return x
    if y.__class__ is not X:
        y &= mask(w)
        if y == 0:
            return 0
        if y == mask(w):
            return x
        if x.op == "and" and x.a[1].__class__ is not X:
            return and_(x.a[0], x.a[1] & y, w)
        # runs of ones and zeros: keep or clear pieces
        runs, at = [], 0
        while at < w:
            b, n = y >> at & 1, 1
            while at + n < w and (y >> (at + n) & 1) == b:
                n += 1
            runs.append((n, b, at))
            at += n
        if len(runs) <= 6:
            return join([(n, ext(x, at, n) if b else 0) for n, b, at in runs])
    elif x.op == "cat" or y.op == "cat":
        return join([(n, and_(a, b, n)) for n, a, b in split(x, y, w)])
    return mk("and", w, x, y)


def or_(x, y, w):
    if x.__class__ is not X and y.__class__ is not X:
        return x | y
    x, y = order(x, y)
    if x is y:
        return x
    if y.__class__ is not X:
        y &= mask(w)
        if y == 0:
            return x
        if y == mask(w):
            return y
        if w == 1:
            return 1
    if x.op == "cat" or y.__class__ is X and y.op == "cat" or y.__class__ is not X:
        ps = split(x, y, w) if x.op == "cat" or y.__class__ is X else None
        if ps is not None:
            return join([(n, or_(a, b, n)) for n, a, b in ps])
    return mk("or", w, x, y)


def xor(x, y, w):
    if x.__class__ is not X and y.__class__ is not X:
        return x ^ y
    x, y = order(x, y)
    if x is y:
        return 0
    if y.__class__ is not X:
        y &= mask(w)
        if y == 0:
            return x
        if w == 1:
            return not_(x)
    if x.op == "cat" and (y.__class__ is not X or y.op == "cat"):
        return join([(n, xor(a, b, n)) for n, a, b in split(x, y, w)])
    return mk("xor", w, x, y)


def not_(x):
    if x.__class__ is not X:
        return 1 - int(x)
    if x.op == "not":
        return x.a[0]
    return mk("not", 1, x)


def shl(x, k, w):
    if k.__class__ is not X:
        if k >= w:
            return 0
        if x.__class__ is not X:
            return x << k & mask(w)
        return join([(k, 0), (w - k, ext(x, 0, w - k))])
    return mk("shl", w, x, k)


def lshr(x, k, w):
    if k.__class__ is not X:
        if k >= w:
            return 0
        if x.__class__ is not X:
            return x >> k
        return join([(w - k, ext(x, k, w - k)), (k, 0)])
    return mk("lshr", w, x, k)


def ashr(x, k, w):
    if k.__class__ is not X:
        k = min(k, w - 1)
        return sext(ext(x, k, w - k), w - k, w)
    return mk("ashr", w, x, k)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def udiv(x, y, w):
    if x.__class__ is not X and y.__class__ is not X:
        return x // y if y else mask(w)
    if y.__class__ is not X and y and y & (y - 1) == 0:
        return lshr(x, y.bit_length() - 1, w)
    return mk("udiv", w, x, y)


def urem(x, y, w):
    if x.__class__ is not X and y.__class__ is not X:
        return x % y if y else x
    if y.__class__ is not X and y and y & (y - 1) == 0:
        return and_(x, y - 1, w)
    return mk("urem", w, x, y)


def sdiv(x, y, w):
    if x.__class__ is not X and y.__class__ is not X:
        a, b = sgn(x, w), sgn(y, w)
        q = abs(a) // abs(b)
        return (-q if (a < 0) != (b < 0) else q) & mask(w)
    return mk("sdiv", w, x, y)


def srem(x, y, w):
    if x.__class__ is not X and y.__class__ is not X:
        a, b = sgn(x, w), sgn(y, w)
        r = abs(a) % abs(b)
        return (-r if a < 0 else r) & mask(w)
    return mk("srem", w, x, y)


def eq(x, y, w):
    if x.__class__ is not X and y.__class__ is not X:
        return int(x == y)
    if x is y:
        return 1
    x, y = order(x, y)
    if w == 1:
        if y.__class__ is not X:
            return x if y else not_(x)
    if x.op == "cat" or y.__class__ is X and y.op == "cat":
        r = 1
        for n, a, b in split(x, y, w):
            r = and_(r, eq(a, b, n), 1)
            if r.__class__ is not X and r == 0:
                return 0
        return r
    if y.__class__ is not X:
        if x.op == "ite":
            c, a, b = x.a
            if a.__class__ is not X or b.__class__ is not X:
                return or_(and_(c, eq(a, y, w), 1), and_(not_(c), eq(b, y, w), 1), 1)
        if x.op == "add" and x.a[1].__class__ is not X:
            return eq(x.a[0], y - x.a[1] & mask(w), w)
    return mk("eq", 1, x, y)


def ult(x, y, w=None):
    if x.__class__ is not X and y.__class__ is not X:
        return int(x < y)
    if x is y:
        return 0
    w = x.w if x.__class__ is X else y.w
    if y.__class__ is not X:
        if y == 0:
            return 0
        if y > mask(w):
            return 1
        if y == 1:
            return eq(x, 0, w)
    if x.__class__ is not X:
        if x == mask(w):
            return 0
        if x == 0:
            return not_(eq(y, 0, w))
    # drop equal upper parts
    if x.__class__ is not X or x.op == "cat" or y.__class__ is X and y.op == "cat":
        ps = split(x, y, w)
        n = len(ps)
        while n > 1 and (ps[n - 1][1] is ps[n - 1][2] or
                         ps[n - 1][1].__class__ is int and ps[n - 1][2].__class__ is int and ps[n - 1][1] == ps[n - 1][2]):
            n -= 1
        if n < len(ps):
            ps = ps[:n]
            return ult(join([(m, a) for m, a, _ in ps]), join([(m, b) for m, _, b in ps]))
        a, b = ps[-1][1], ps[-1][2]
        if a.__class__ is not X and b.__class__ is not X:
            return int(a < b)
    return mk("ult", 1, x, y)


def slt(x, y, w):
    if x.__class__ is not X and y.__class__ is not X:
        return int(sgn(x, w) < sgn(y, w))
    if y.__class__ is not X and y == 0:
        return ext(x, w - 1, 1)
    if w == 1:
        return and_(x, not_(y), 1)
    sx = ext(x, w - 1, 1)
    sy = ext(y, w - 1, 1)
    if sx.__class__ is not X and sy.__class__ is not X:
        return sx if sx != sy else ult(x, y)
    return mk("slt", 1, x, y)


def ite(c, a, b, w):
    if c.__class__ is not X:
        return a if c else b
    if a is b or (a.__class__ is not X and b.__class__ is not X and a == b):
        return a
    if c.op == "not":
        return ite(c.a[0], b, a, w)
    if w == 1:
        if a.__class__ is not X and b.__class__ is not X:
            return c if a else not_(c)
        if a.__class__ is not X:
            return or_(c, b, 1) if a else and_(not_(c), b, 1)
        if b.__class__ is not X:
            return or_(not_(c), a, 1) if b else and_(c, a, 1)
    return mk("ite", w, c, a, b)


# -- the same operations recur on every re-execution: remember them
def _remember(f, n):
    memo = {}

    if n == 2:
        def g(x, y, w=None):
            k = (x.id if x.__class__ is X else -1 - x, y.id if y.__class__ is X else -1 - y)
            if k[0] < 0 and k[1] < 0:
                return f(x, y, w)
            k += (w,)
            r = memo.get(k)
            if r is None:
                r = memo[k] = f(x, y, w)
            return r
    else:
        def g(x, lo, w):
            if x.__class__ is not X:
                return f(x, lo, w)
            k = (x.id, lo, w)
            r = memo.get(k)
            if r is None:
                r = memo[k] = f(x, lo, w)
            return r
    return g


ext = _remember(ext, 1)
zext = _remember(zext, 1)
sext = _remember(sext, 1)
for _n in ("add", "sub", "mul", "and_", "or_", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt"):
    globals()[_n] = _remember(globals()[_n], 2)
_joined = {}
_join = join


def join(ps):
    k = tuple([(w, v.id if v.__class__ is X else -1 - v) for w, v in ps])
    r = _joined.get(k)
    if r is None:
        r = _joined[k] = _join(ps)
    return r


# -- evaluation and translation -----------------------------------------------------------------------
def walk(x, fn, memo):
    """Post-order without recursion."""
    stack = [x]
    while stack:
        t = stack[-1]
        if t.id in memo:
            stack.pop()
            continue
        todo = [v for v in t.a if v.__class__ is X and v.id not in memo]
        if todo:
            stack += todo
            continue
        memo[t.id] = fn(t)
        stack.pop()
    return memo[x.id]


def value(x, model, memo):
    """The value of a term when symbols have the values of `model` (missing ones are 0)."""
    if x.__class__ is not X:
        return x

    def v(t):
        return memo[t.id] if t.__class__ is X else t

    def fn(t):
        o, w = t.op, t.w
        if o == "sym":
            return model.get(t.a[0], 0) & mask(w)
        if o == "cat":
            r, at = 0, 0
            for pw, p in parts(t):
                r |= v(p) << at
                at += pw
            return r
        a = [v(q) for q in t.a]
        if o == "ext":
            return ext(a[0], a[1], w)
        if o == "ite":
            return a[1] if a[0] else a[2]
        if o == "not":
            return 1 - a[0]
        if o == "sext":
            return sext(a[0], t.a[0].w, w)
        ow = next(q.w for q in t.a if q.__class__ is X)
        return OPS[o](a[0], a[1], ow)
    return walk(x, fn, memo)


OPS = dict(add=add, sub=sub, mul=mul, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, shl=shl, lshr=lshr, ashr=ashr,
           eq=eq, ult=ult, slt=slt, xor=xor)
OPS["and"] = and_
OPS["or"] = or_
Z = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b, udiv=z3.UDiv, urem=z3.URem,
         sdiv=lambda a, b: a / b, srem=z3.SRem, shl=lambda a, b: a << b, lshr=z3.LShR, ashr=lambda a, b: a >> b,
         xor=lambda a, b: a ^ b)
Z["and"] = lambda a, b: a & b
Z["or"] = lambda a, b: a | b
_z = {}


def to_z3(x):
    """A z3 bit-vector (a Bool for one-bit terms)."""
    def z(t, w):
        if t.__class__ is X:
            return _z[t.id]
        return z3.BoolVal(bool(t)) if w == 1 else z3.BitVecVal(t, w)

    def bits(t, w):
        """one-bit terms as bit-vectors, inside cat"""
        r = z(t, w)
        return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if w == 1 else r

    def fn(t):
        o, w = t.op, t.w
        if o == "sym":
            return z3.Bool(t.a[0]) if w == 1 else z3.BitVec(t.a[0], w)
        if o == "cat":
            return z3.Concat(*[bits(p, pw) for pw, p in reversed(parts(t))])
        ow = next(q.w for q in t.a[(1 if o == "ite" else 0):] if q.__class__ is X) if o != "ite" else w
        if o == "ext":
            r = z3.Extract(t.a[1] + w - 1, t.a[1], bits(t.a[0], ow))
            return r == z3.BitVecVal(1, 1) if w == 1 else r
        if o == "ite":
            return z3.If(z(t.a[0], 1), z(t.a[1], w), z(t.a[2], w))
        if o == "not":
            return z3.Not(z(t.a[0], 1))
        if o == "sext":
            return z3.SignExt(w - ow, bits(t.a[0], ow))
        a, b = z(t.a[0], ow), z(t.a[1], ow)
        if o == "eq":
            return a == b
        if o == "ult":
            return z3.ULT(a, b) if ow > 1 else z3.And(z3.Not(a), b)
        if o == "slt":
            return a < b
        if ow == 1:
            if o == "and":
                return z3.And(a, b)
            if o == "or":
                return z3.Or(a, b)
            if o in ("xor", "add", "sub"):
                return z3.Xor(a, b)
            if o == "mul":
                return z3.And(a, b)
        return Z[o](a, b)
    if x.__class__ is not X:
        return z3.BoolVal(bool(x))
    return walk(x, fn, _z)


def bswap_(x, w):
    return join([(8, ext(x, i, 8)) for i in reversed(range(0, w, 8))])

"""Path-wise symbolic execution of compiled IR.  Paths are explored depth first by re-execution; z3 decides
every branch whose condition depends on an input."""
import os, re, sys, time, threading
import z3
from . import bv, ir
from .bv import X

PROGRESS = bool(os.environ.get("PROGRESS"))
ALLOC_LIMIT = 1 << 32          # bytes; a request that can exceed it is reported (a native run refuses it as well)
NUMBER_LIMIT = 600


class End(Exception):
    """The path is over (assumption not met or infeasible)."""


class Bad(Exception):
    """The path panics or misuses memory."""


class Limit(Exception):
    """A bound of the exploration was reached."""


PANICS = re.compile(r"9panicking|handle_error|_fail\b|_fail$|unwrap_failed|expect_failed|capacity_overflow|handle_alloc_error|"
                    r"slice_index|bounds_check|panic|len_mismatch|_overflow$|already_borrowed|already_mutably")


class Obj:
    __slots__ = ("data", "sym", "live")

    def __init__(self, data):
        self.data, self.sym, self.live = data, None, True


class Code:
    __slots__ = ("blocks", "nreg", "n", "name", "labels")


class Program:
    def __init__(self, text, own=None):
        self.m = ir.Module(text)
        self.code = {}
        # functions of the code under test and its harnesses; the models below replace only others
        self.own = self.m.functions if own is None else own

    def get(self, name):
        c = self.code.get(name)
        if c is None:
            b = None if name in self.own else builtin(name)
            if b is not None:
                c = b
            elif name in self.m.functions:
                k = ir.Compiler(self.m, name).compile()
                c = Code()
                c.blocks, c.nreg, c.n, c.name, c.labels = k.blocks, k.nreg, k.nparams, name, k.labels
            else:
                raise ir.Unsupported("external function %s" % name)
            self.code[name] = c
        return c


class Run:
    def __init__(self, program, entry, block_limit=2_000_000, path_limit=200_000, seconds=600, extra=None):
        self.p, self.entry = program, entry
        self.block_limit, self.path_limit, self.seconds = block_limit, path_limit, seconds
        self.solver = z3.Solver()
        self.stack = []            # [term or None, alternative still open?, note]
        self.model, self.memo = {}, {}
        self.queries, self.solver_s, self.paths, self.unmet = 0, 0.0, 0, 0
        self.reached, self.bad, self.blocks_run = set(), None, 0
        self.called = set()
        self.known, self.serial = {}, 0
        self.syms = {}             # name -> width, of all inputs ever created

    # -- exploration
    def explore(self):
        t0 = time.time()
        while True:
            self.begin()
            try:
                self.call(self.entry, [])
                self.paths += 1
            except End:
                self.unmet += 1
            except Bad as e:
                self.paths += 1
                self.bad = dict(message=str(e), values=self.inputs(), where=self.where())
                return
            if not self.backtrack():
                return
            if PROGRESS and (self.paths + self.unmet) % 1000 == 0:
                print(self.paths, self.unmet, len(self.stack), self.steps, "%.0fs" % (time.time() - t0), file=sys.stderr, flush=True)
            if self.paths + self.unmet > self.path_limit:
                raise Limit("more than %d paths" % self.path_limit)
            if time.time() - t0 > self.seconds:
                raise Limit("the time for this harness ran out after %d paths" % self.paths)

    def backtrack(self):
        while self.stack:
            term, open_, note, _ = self.stack.pop()
            self.solver.pop()
            if open_:
                t = bv.not_(term)
                self.solver.push()
                self.solver.add(bv.to_z3(t))
                if self.check():
                    self.stack.append([t, False, note, self.tick()])
                    return True
                self.solver.pop()
        return False

    def tick(self):
        self.serial += 1
        return self.serial

    def check(self, *terms):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*[bv.to_z3(x) for x in terms])
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise Limit("the solver gave no answer")
        if r == z3.sat:
            m = self.solver.model()
            self.model = {d.name(): (m[d].as_long() if z3.is_bv_value(m[d]) else int(z3.is_true(m[d]))) for d in m.decls()}
            self.memo = {}
            return True
        return False

    def value(self, x):
        return bv.value(x, self.model, self.memo) if x.__class__ is X else x

    def begin(self):
        self.objs, self.next_obj = {}, 1 << 20
        self.pos, self.steps, self.any = 0, 0, []
        self.trace = []

    def decide(self, term, note):
        self.solver.push()
        self.solver.add(bv.to_z3(term))
        self.stack.append([term, True, note, self.tick()])
        self.pos += 1

    def branch(self, c, note=None):
        if c.__class__ is not X:
            return c
        if self.pos < len(self.stack):
            t = self.stack[self.pos][0]
            self.pos += 1
            if t is c:
                return 1
            if t is bv.not_(c):
                return 0
            raise Limit("the exploration is not deterministic")
        v = self.value(c)
        self.decide(c if v else bv.not_(c), note)
        return v

    def number(self, x):
        """A concrete value of x on this path; all feasible ones are explored."""
        if x.__class__ is not X:
            return x
        for _ in range(NUMBER_LIMIT):
            m = self.stack[self.pos][2] if self.pos < len(self.stack) else self.value(x)
            if self.branch(bv.eq(x, m, x.w), m):
                return m
        raise Limit("a quantity with more than %d values is needed as a number: %s" % (NUMBER_LIMIT, x))

    def switch(self, v, cases):
        for k in cases:
            if self.branch(bv.eq(v, k, v.w)):
                return k
        return None

    def assume(self, c):
        if c.__class__ is not X:
            if not c:
                raise End()
            return
        if self.pos < len(self.stack):
            self.pos += 1
            return
        if not self.value(c) and not self.check(c):
            raise End()
        self.solver.push()
        self.solver.add(bv.to_z3(c))
        self.stack.append([c, False, None, self.tick()])
        self.pos += 1

    def always(self, c):
        """Does c hold for all values on this path?  (Remembered per path prefix: it does not fork.)"""
        if c.__class__ is not X:
            return c
        k = (c.id, self.stack[self.pos - 1][3] if self.pos else 0)
        if self.pos < len(self.stack):
            # the answer was found on an earlier execution of this prefix
            if k in self.known:
                return self.known[k]
        r = self.value(c) and self.unsat(bv.not_(c))
        if not self.pos < len(self.stack):
            self.known[k] = r
        return r

    def unsat(self, c):
        t = time.time()
        self.queries += 1
        r = self.solver.check(bv.to_z3(c))
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise Limit("the solver gave no answer")
        return r == z3.unsat

    def inputs(self):
        self.check()
        self.memo = {}
        out = []
        for terms in self.any:
            out.append([self.value(t) for t in terms])
        return out

    def where(self):
        return self.trace[-6:]

    # -- memory
    def obj(self, a):
        i = a >> 32
        o = self.objs.get(i)
        if o is None:
            name = self.p.m.by_id.get(i)
            if name is None or name not in self.p.m.globals:
                raise Bad("access to memory that does not exist (address %#x)" % a)
            _, data, const = self.p.m.global_init(name)
            o = self.objs[i] = Obj(data)
        return o

    def alloc(self, n):
        i = self.next_obj
        self.next_obj = i + 1
        self.objs[i] = Obj(bytearray(n))
        return i << 32

    def at(self, a, n):
        """(object, offset) of a checked access."""
        if a.__class__ is X:
            a = self.number(a)
        o = self.obj(a)
        off = a & 0xffffffff
        if off + n > len(o.data) or not o.live:
            raise Bad("access outside an object of %d bytes (offset %d, %d bytes%s)" % (len(o.data), off, n, "" if o.live else ", freed"))
        return o, off

    def load(self, a, n):
        o, off = self.at(a, n)
        if o.sym:
            s = o.sym
            for i in range(off, off + n):
                if i in s:
                    d = o.data
                    return bv.join([(8, s[j] if j in s else d[j]) for j in range(off, off + n)])
        return int.from_bytes(o.data[off:off + n], "little")

    def store(self, a, v, n):
        o, off = self.at(a, n)
        if v.__class__ is X:
            if o.sym is None:
                o.sym = {}
            s = o.sym
            for i in range(n):
                b = bv.ext(v, 8 * i, 8)
                if b.__class__ is X:
                    s[off + i] = b
                else:
                    s.pop(off + i, None)
                    o.data[off + i] = b
        else:
            if o.sym:
                for i in range(off, off + n):
                    o.sym.pop(i, None)
            o.data[off:off + n] = v.to_bytes(n, "little")

    def load_agg(self, a, t):
        k = t[0]
        if a.__class__ is X:
            a = self.number(a)
        if k in "ax":
            z = ir.size(t[2])
            return tuple([self.load_agg(a + i * z, t[2]) for i in range(t[1])])
        if k == "s":
            return tuple([self.load_agg(a + ir.field_offset(t, i), x) for i, x in enumerate(t[2])])
        return bv.trunc(self.load(a, ir.size(t)), ir.width(t))

    def store_agg(self, a, v, t):
        k = t[0]
        if a.__class__ is X:
            a = self.number(a)
        if k in "ax":
            z = ir.size(t[2])
            for i in range(t[1]):
                self.store_agg(a + i * z, v[i], t[2])
        elif k == "s":
            for i, x in enumerate(t[2]):
                self.store_agg(a + ir.field_offset(t, i), v[i], x)
        else:
            n = ir.size(t)
            self.store(a, bv.zext(v, ir.width(t), 8 * n), n)

    def copy(self, dst, src, n):
        n = self.number(n)
        if n == 0:
            return
        so, s = self.at(src, n)
        do, d = self.at(dst, n)
        moved = None
        if so.sym:
            m = so.sym
            moved = [(i, m[s + i]) for i in range(n) if s + i in m] if n < len(m) else \
                [(i - s, v) for i, v in m.items() if s <= i < s + n]
        do.data[d:d + n] = so.data[s:s + n]
        if do.sym:
            m = do.sym
            for i in ([i for i in m if d <= i < d + n] if len(m) < n else range(d, d + n)):
                m.pop(i, None)
        if moved:
            if do.sym is None:
                do.sym = {}
            for i, v in moved:
                do.sym[d + i] = v

    def fill(self, p, byte, n):
        n = self.number(n)
        if n == 0:
            return
        o, d = self.at(p, n)
        if byte.__class__ is X:
            for i in range(n):
                self.store(p + i, byte, 1)
            return
        o.data[d:d + n] = bytes([byte]) * n
        if o.sym:
            for i in range(d, d + n):
                o.sym.pop(i, None)

    def memory_request(self, n):
        if n.__class__ is X:
            if self.branch(bv.ult(ALLOC_LIMIT, n)):
                raise Bad("a request for more than %d bytes of memory" % ALLOC_LIMIT)
            return self.number(n)
        if n > ALLOC_LIMIT:
            raise Bad("a request for %d bytes of memory" % n)
        return n

    # -- calls
    def call(self, name, args):
        f = self.p.code.get(name) or self.p.get(name)
        if f.__class__ is not Code:
            return f(self, args)
        self.called.add(name)
        R = [None] * f.nreg
        R[1:1 + f.n] = args
        b, blocks, n = 0, f.blocks, 0
        self.trace.append(name)
        while b >= 0:
            b = blocks[b](R, self)
            n += 1
            if n > self.block_limit:
                raise Bad("no end in sight after %d blocks" % n)
        self.trace.pop()
        self.steps += n
        self.blocks_run += n
        if self.steps > self.block_limit:
            raise Bad("no end in sight after %d blocks" % self.steps)
        return R[0]

    def call_ptr(self, a, args):
        a = self.number(a)
        name = self.p.m.by_id.get(a >> 32)
        if name is None:
            raise Bad("call of address %#x" % a)
        return self.call(name, args)

    def pick(self, c, a, b):
        return a if self.branch(c) else b

    def div(self, fn, a, b, w):
        if b.__class__ is X:
            if self.branch(bv.eq(b, 0, w)):
                raise Bad("division by zero")
        elif b == 0:
            raise Bad("division by zero")
        return fn(a, b, w)

    def abort(self, msg):
        raise Bad(msg)

    def unreachable(self):
        raise Bad("unreachable code is reached")


# -- models of what is outside the module -----------------------------------------------------------
def b_any(S, a):
    p, n = a
    n = S.number(n)
    k = len(S.any)
    terms = []
    o, off = S.at(p, n) if n else (None, 0)
    if 0 < n <= 16:
        t = bv.sym("v%d_%d" % (k, n), 8 * n)
        S.store(p, t, n)
        terms = [bv.ext(t, 8 * i, 8) for i in range(n)]
    else:
        for i in range(n):
            t = bv.sym("v%d_%d.%d" % (k, n, i), 8)
            S.store(p + i, t, 1)
            terms.append(t)
    S.any.append(terms)


PRIME = (1 << 251) + 17 * (1 << 192) + 1


def b_field(S, a):
    """out = a op b in the STARK field; four limbs each, most significant first."""
    op, out, pa, pb = a

    def get(p):
        return bv.join([(64, S.load(p + 24 - 8 * i, 8)) for i in range(4)])
    x = get(pa)
    y = x if op in (0, 4) else get(pb)
    w = 256
    if x.__class__ is not X and y.__class__ is not X:
        r = [x, x + y, x - y, x * y, pow(x, PRIME - 2, PRIME)][op] % PRIME
    elif op == 0:
        if S.always(bv.ult(x, PRIME)):
            r = x
        else:
            r = bv.ite(bv.ult(x, PRIME), x, bv.urem(x, PRIME, w), w)
    elif op == 1:
        s = bv.add(x, y, w)
        r = s if S.always(bv.ult(s, PRIME)) else bv.ite(bv.ult(s, PRIME), s, bv.sub(s, PRIME, w), w)
    elif op == 2:
        d = bv.sub(x, y, w)
        le = bv.not_(bv.ult(x, y))
        r = d if S.always(le) else bv.ite(le, d, bv.add(d, PRIME, w), w)
    elif op == 3:
        c, v = (x, y) if y.__class__ is X else (y, x)
        if c.__class__ is not X and c < 2:
            r = v if c else 0
        elif c.__class__ is not X and S.always(bv.ult(v, PRIME // c)):
            r = bv.mul(v, c, w)
        else:
            r = bv.trunc(bv.urem(bv.mul(bv.zext(x, w, 512), bv.zext(y, w, 512), 512), PRIME, 512), 256)
    else:
        raise Limit("inverse of a symbolic element")
    for i in range(4):
        S.store(out + 24 - 8 * i, bv.ext(r, 64 * i, 64), 8)


def b_assume(S, a):
    S.assume(a[0])


def b_reach(S, a):
    o, off = S.at(a[0], a[1])
    S.reached.add(bytes(o.data[off:off + a[1]]).decode())


def b_limit(S, a):
    raise Limit("a limit of the harness is reached")


def b_alloc(S, a):
    return S.alloc(S.memory_request(a[0]))


def b_dealloc(S, a):
    if a[0].__class__ is not X and a[0] >> 32:
        S.obj(a[0]).live = False


def b_realloc(S, a):
    p, old, al, new = a
    new = S.memory_request(new)
    q = S.alloc(new)
    old = S.number(old)
    S.copy(q, p, min(old, new))
    b_dealloc(S, [p])
    return q


def compare(S, p, q, n):
    """memcmp as a term: -1, 0 or 1 (32 bits)."""
    n = S.number(n)
    if n == 0:
        return 0
    a = S.load(p, n)
    b = S.load(q, n)
    x, y = bv.bswap_(a, 8 * n), bv.bswap_(b, 8 * n)
    return bv.ite(bv.eq(a, b, 8 * n), 0, bv.ite(bv.ult(x, y), 0xffffffff, 1, 32), 32)


def b_memcmp(S, a):
    return compare(S, *a)


def b_bcmp(S, a):
    n = S.number(a[2])
    if n == 0:
        return 0
    return bv.zext(bv.not_(bv.eq(S.load(a[0], n), S.load(a[1], n), 8 * n)), 1, 32)


def b_nothing(S, a):
    return 0


def b_clone_string(S, a):
    """String { capacity, pointer, length }."""
    out, s = a
    p, n = S.load(s + 8, 8), S.number(S.load(s + 16, 8))
    q = S.alloc(n) if n else 1
    if n:
        S.copy(q, p, n)
    for i, v in enumerate((n, q, n)):
        S.store(out + 8 * i, v, 8)


MODELS = [
    (re.compile(r"6StringNt\w*5clone5Clone5clone"), b_clone_string),
    ("3std2io5stdio7__eprint", b_nothing), ("3std2io5stdio6__print", b_nothing),
    ("ll_any", b_any), ("ll_field", b_field), ("ll_assume", b_assume), ("ll_reach", b_reach), ("ll_limit", b_limit),
    ("__rust_alloc_zeroed", b_alloc), ("__rdl_alloc_zeroed", b_alloc), ("__rust_alloc", b_alloc), ("__rdl_alloc", b_alloc),
    ("__rust_dealloc", b_dealloc), ("__rdl_dealloc", b_dealloc), ("__rust_realloc", b_realloc), ("__rdl_realloc", b_realloc),
    ("__rust_no_alloc_shim_is_unstable", b_nothing),
    ("memcmp", b_memcmp), ("bcmp", b_bcmp),
]
EXACT = {"ll_field", "memcmp", "bcmp", "ll_any", "ll_assume", "ll_reach", "ll_limit"}


def builtin(name):
    n = name[1:].strip('"')
    for k, f in MODELS:
        if k.search(n) if hasattr(k, "search") else n == k or (k not in EXACT and k in n):
            return f
    if PANICS.search(n):
        def panics(S, a):
            raise Bad("panic: %s" % re.sub(r"^_R.*?(\d+)([a-z_]+)(C\w+)?$", r"\2", n))
        return panics
    return None


def decide(text, entry, own=None, **kw):
    """Explores a harness in a thread with a deep stack."""
    out = {}

    def body():
        try:
            r = Run(Program(text, own), entry, **kw)
            out["run"] = r
            r.explore()
        except Exception as e:         # noqa
            import traceback
            out["error"] = e
            out["trace"] = traceback.format_exc()
    sys.setrecursionlimit(1_000_000)
    threading.stack_size(512 << 20)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    return out


def report(text, entry, seconds, own=None):
    t = time.time()
    o = decide(text, "@" + entry, own, seconds=seconds)
    r = o.get("run")
    d = dict(harness=entry, time=time.time() - t, problem=None, bad=None, paths=0, queries=0, solver_s=0.0, reached=[], functions=0)
    if r is not None:
        d.update(paths=r.paths, unmet=r.unmet, queries=r.queries, solver_s=r.solver_s, reached=sorted(r.reached), bad=r.bad,
                 blocks=r.blocks_run, functions=len(r.called))
    if "error" in o:
        d["problem"] = "%s: %s" % (type(o["error"]).__name__, str(o["error"])[:600])
        if not isinstance(o["error"], (Limit, ir.Unsupported)):
            d["problem"] += "\n" + o["trace"][-1500:]
    return d


if __name__ == "__main__":
    import json
    own = None
    if os.path.exists(sys.argv[1] + ".own"):
        own = {"@" + x for x in open(sys.argv[1] + ".own").read().split("\n")}
    d = report(open(sys.argv[1]).read(), sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else 600, own)
    if len(sys.argv) > 4:
        with open(sys.argv[4], "w") as f:
            json.dump(d, f)
    else:
        print(d)

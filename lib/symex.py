"""Symbolic executor for the LLVM IR of the code under test (byte-addressed objects, path merging at post-dominators).

Concrete values are Python ints, symbolic ones terms.T.  Every memory access is checked against the bounds and the
initialisation state of its object; violations are collected per path condition."""
import math
import terms as tm
from terms import T, MASK


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return "Ptr(%s+%s)" % (self.o, self.off)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class V:
    """an abstract value held by an object of a modelled library; off bytes into its storage"""
    __slots__ = ("v", "off")

    def __init__(self, v, off=0):
        self.v = v
        self.off = off


class EngineError(Exception):
    """something the engine does not model: the check gives no verdict"""


class PathEnd(Exception):
    """the current path ends here with an error that has been recorded"""


class Obj:
    __slots__ = ("b", "kind", "name", "owner", "const")

    def __init__(self, b, kind, name, owner, const=False):
        self.b = b
        self.kind = kind
        self.name = name
        self.owner = owner
        self.const = const


class Finding:
    def __init__(self, kind, detail, pc, fn):
        self.kind, self.detail, self.pc, self.fn = kind, detail, pc, fn

    def __repr__(self):
        return "%s: %s (in %s)" % (self.kind, self.detail, self.fn)


_owner = [0]


class State:
    __slots__ = ("mem", "pc", "tok", "ex", "trace")

    def __init__(self, ex):
        self.mem = {}
        self.pc = ()
        _owner[0] += 1
        self.tok = _owner[0]
        self.ex = ex
        self.trace = ()

    def fork(self):
        n = State(self.ex)
        n.mem = dict(self.mem)
        n.pc = self.pc
        n.trace = self.trace
        _owner[0] += 1
        self.tok = _owner[0]        # objects shared from now on
        return n

    # ------------------------------------------------------------ objects
    def new(self, size, kind, name, init=None, const=False):
        ex = self.ex
        ex.next_obj += 1
        oid = ex.next_obj
        self.mem[oid] = Obj([init] * size, kind, name, self.tok, const)
        return Ptr(oid, 0)

    def wobj(self, oid):
        o = self.mem[oid]
        if o.owner != self.tok:
            o = Obj(list(o.b), o.kind, o.name, self.tok, o.const)
            self.mem[oid] = o
        return o

    def bad(self, kind, detail, end=True):
        self.ex.record(kind, detail, self)
        if end:
            raise PathEnd()

    def obj(self, p, what):
        if p.__class__ is not Ptr:
            if p.__class__ is int:
                self.bad("null-deref", "%s through a null or integer pointer %#x" % (what, p))
            if p.__class__ is T:
                self.bad("wild-pointer", "%s through an undefined pointer" % what)
            raise EngineError("pointer value %r" % (p,))
        o = self.mem.get(p.o)
        if o is None:
            self.bad("use-after-free", "%s of an object that is no longer alive (%s)" % (what, self.ex.dead.get(p.o, "?")))
        return o

    # ------------------------------------------------------------ cells
    def read_cells(self, o, off, n, what="read"):
        """value (int / T / Ptr) of n bytes at concrete offset"""
        b = o.b
        if off < 0 or off + n > len(b):
            self.bad("out-of-bounds", "%s of %d bytes at offset %d of %s (size %d)" % (what, n, off, o.name, len(b)))
        c = b[off]
        if n == 1:
            if c.__class__ is int:
                return c
            if c.__class__ is tuple:
                t = c[0]
                if t.__class__ is T:
                    return t if t.w == 8 else tm.ext(t, 8 * c[1], 8)
                return self.ptrbyte(c)
            return self.uninit(o, off)
        if c.__class__ is tuple:
            t = c[0]
            if t.__class__ is T:
                z = c[1]
                if t.w >= 8 * (n + z):
                    for k in range(1, n):
                        d = b[off + k]
                        if d.__class__ is not tuple or d[0] is not t or d[1] != z + k:
                            break
                    else:
                        return tm.ext(t, 8 * z, 8 * n)
            elif t.__class__ is Ptr or t.__class__ is FnPtr or t.__class__ is V:
                if n == 8:
                    for k in range(1, n):
                        d = b[off + k]
                        if d.__class__ is not tuple or d[0] is not t or d[1] != k:
                            break
                    else:
                        return t
        v = 0
        parts = None
        for k in range(n):
            c = b[off + k]
            if c.__class__ is int:
                if parts is None:
                    v |= c << (8 * k)
                else:
                    parts.append((c, 8))
            else:
                if parts is None:
                    parts = [((v >> (8 * j)) & 255, 8) for j in range(k)]
                if c.__class__ is tuple:
                    t = c[0]
                    if t.__class__ is T:
                        parts.append((t if t.w == 8 else tm.ext(t, 8 * c[1], 8), 8))
                    else:
                        parts.append((self.ptrbyte(c), 8))
                else:
                    parts.append((self.uninit(o, off + k), 8))
        return v if parts is None else tm.cat(parts)

    def ptrbyte(self, c):
        raise EngineError("a byte of a pointer is read as data")

    def uninit(self, o, off):
        u = self.ex.uninit_var(o, off)
        return u

    def write_cells(self, oid, off, n, v, what="write"):
        o = self.wobj(oid)
        b = o.b
        if off < 0 or off + n > len(b):
            self.bad("out-of-bounds", "%s of %d bytes at offset %d of %s (size %d)" % (what, n, off, o.name, len(b)))
        if o.const:
            self.bad("write-to-const", "%s to constant %s" % (what, o.name))
        if v.__class__ is int:
            if n == 1:
                b[off] = v
            else:
                for k in range(n):
                    b[off + k] = (v >> (8 * k)) & 255
        elif n == 1 and v.__class__ is T:
            b[off] = (v, 0)
        else:
            for k in range(n):
                b[off + k] = (v, k)

    # ------------------------------------------------------------ symbolic offsets
    def offsets(self, off):
        """(index term, [offset for each index value])"""
        pieces = []

        def walk(t, k, acc):
            if t.__class__ is int:
                acc[0] += k * t
            elif t.op == "add":
                acc[0] += k * t.x[1]
                for c, p in zip(t.x[0], t.a):
                    walk(p, k * (c if c < 1 << (t.w - 1) else c - (1 << t.w)), acc)
            elif t.op == "cat":
                s = 0
                for p, w in zip(t.a, t.x):
                    if p.__class__ is int:
                        acc[0] += (k * p) << s
                    else:
                        pieces.append((p, w, k << s))
                    s += w
            else:
                pieces.append((t, t.w, k))
        acc = [0]
        walk(off, 1, acc)
        bits = []
        for p, w, k in pieces:
            n = min(w, tm.umax(p).bit_length())
            bits.append((p, n, k))
        tot = sum(n for _, n, _ in bits)
        if tot > 12:
            raise EngineError("symbolic address with %d free bits: %s" % (tot, tm.show(off)))
        idx = tm.cat([(tm.ext(p, 0, n), n) for p, n, k in bits])
        vals = []
        for i in range(1 << tot):
            v = acc[0]
            s = 0
            for p, n, k in bits:
                v += ((i >> s) & MASK[n]) * k
                s += n
            v &= MASK[64]
            if v >> 63:
                v -= 1 << 64
            vals.append(v)
        return idx, vals

    def sym_access(self, p, n, o, what):
        """in-bounds candidates of a symbolic offset; reports feasible out-of-bounds ones"""
        idx, vals = self.offsets(p.off)
        size = len(o.b)
        badv = [i for i, v in enumerate(vals) if v < 0 or v + n > size]
        if badv:
            um = tm.umax(idx)
            badv = [i for i in badv if i <= um]
        if badv:
            c = tm.or_n([tm.eq(idx, i, idx.w) for i in badv])
            if self.ex.feasible(self, c):
                f = self.fork()
                f.pc = f.pc + (c,)
                self.ex.record("out-of-bounds", "%s of %d bytes at a data-dependent offset (e.g. %d) of %s (size %d)" % (what, n, vals[badv[0]], o.name, size), f)
                good = tm.not_(c, 1)
                if not self.ex.feasible(self, good):
                    raise PathEnd()
                self.pc = self.pc + (good,)
        bs = set(badv)
        return idx, vals, bs

    def load(self, p, n):
        o = self.mem.get(p.o) if p.__class__ is Ptr else None
        if o is None:
            if p.__class__ is V:
                return self.ex.vload(self, p, n)
            o = self.obj(p, "read")
        off = p.off
        if off.__class__ is int:
            return self.read_cells(o, off, n)
        idx, vals, bad = self.sym_access(p, n, o, "read")
        um = tm.umax(idx)
        size = len(o.b)
        ent = []
        cache = self.ex.tabcache
        key = None
        if o.const:
            key = (p.o, n, tuple(vals))
            ent = cache.get(key)
            if ent is not None:
                return tm.select(ent, idx, 8 * n)
            ent = []
        for i, v in enumerate(vals):
            if i in bad or i > um or v < 0 or v + n > size:
                ent.append(None)
            else:
                ent.append(self.read_cells(o, v, n))
        fill = next(e for e in ent if e is not None)
        ent = [fill if e is None else e for e in ent]
        for e in ent:
            if e.__class__ is Ptr:
                raise EngineError("symbolic selection of a pointer")
        if key is not None:
            cache[key] = ent
        return tm.select(ent, idx, 8 * n)

    def store(self, p, n, v):
        if p.__class__ is not Ptr or p.o not in self.mem:
            self.obj(p, "write")
        off = p.off
        if off.__class__ is int:
            return self.write_cells(p.o, off, n, v)
        if v.__class__ is Ptr:
            raise EngineError("pointer stored at a symbolic address")
        o = self.mem[p.o]
        idx, vals, bad = self.sym_access(p, n, o, "write")
        um = tm.umax(idx)
        for i, off in enumerate(vals):
            if i in bad or i > um:
                continue
            old = self.read_cells(self.mem[p.o], off, n)
            self.write_cells(p.o, off, n, tm.ite(tm.eq(idx, i, idx.w), v, old, 8 * n))

    def copy(self, d, s, n):
        if n.__class__ is not int:
            raise EngineError("memcpy with symbolic size")
        if n == 0:
            return
        so = self.obj(s, "read")
        do = self.obj(d, "write")
        if s.off.__class__ is not int or d.off.__class__ is not int:
            for k in range(n):
                self.store(Ptr(d.o, tm.add(d.off, k, 64)), 1, self.load(Ptr(s.o, tm.add(s.off, k, 64)), 1))
            return
        a, z = s.off, s.off + n
        if a < 0 or z > len(so.b):
            self.bad("out-of-bounds", "read of %d bytes at offset %d of %s (size %d)" % (n, a, so.name, len(so.b)))
        if d.off < 0 or d.off + n > len(do.b):
            self.bad("out-of-bounds", "write of %d bytes at offset %d of %s (size %d)" % (n, d.off, do.name, len(do.b)))
        if do.const:
            self.bad("write-to-const", "write to constant %s" % do.name)
        cells = so.b[a:z]
        # an uninitialised source byte stays one identifiable unknown
        for k, c in enumerate(cells):
            if c is None:
                cells[k] = (self.uninit(so, a + k), 0)
        self.wobj(d.o).b[d.off:d.off + n] = cells

    def fill(self, d, v, n):
        if n.__class__ is not int:
            raise EngineError("memset with symbolic size")
        if n == 0:
            return
        o = self.obj(d, "write")
        if d.off.__class__ is not int:
            raise EngineError("memset at symbolic address")
        if d.off < 0 or d.off + n > len(o.b):
            self.bad("out-of-bounds", "write of %d bytes at offset %d of %s (size %d)" % (n, d.off, o.name, len(o.b)))
        if o.const:
            self.bad("write-to-const", "write to constant %s" % o.name)
        self.wobj(d.o).b[d.off:d.off + n] = [v if v.__class__ is int else (v, 0)] * n

    def free(self, p, kind):
        if p.__class__ is int and p == 0:
            return
        o = self.obj(p, "release")
        if o.kind != kind or p.off != 0:
            self.bad("bad-free", "release of %s (%s) with %s" % (o.name, o.kind, kind))
        self.ex.dead[p.o] = o.name
        del self.mem[p.o]


# ======================================================================================= value helpers (slow paths)
def ptradd(p, d):
    """pointer plus byte offset (int or 64-bit term)"""
    if p.__class__ is Ptr:
        o = p.off
        if o.__class__ is int and d.__class__ is int:
            return Ptr(p.o, o + d)
        if d.__class__ is int:
            d &= MASK[64]
        if o.__class__ is int:
            o &= MASK[64]
        r = tm.add(o, d, 64)
        if r.__class__ is int and r >> 63:
            r -= 1 << 64
        return Ptr(p.o, r)
    if p.__class__ is int and d.__class__ is int:
        return (p + d) & MASK[64]
    if p.__class__ is T:
        return p
    if p.__class__ is V and d.__class__ is int:
        return V(p.v, p.off + sgn(d & MASK[64], 64))
    raise EngineError("pointer arithmetic on %r" % (p,))


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def scaled(idx, w, size):
    """sign-extended index times element size"""
    if idx.__class__ is int:
        return sgn(idx, w) * size
    if idx.__class__ is not T:
        raise EngineError("index %r" % (idx,))
    return tm.mul(tm.sext(idx, w, 64), size, 64)


def b_add(a, b, w):
    if a.__class__ is Ptr:
        return ptradd(a, b)
    if b.__class__ is Ptr:
        return ptradd(b, a)
    return tm.add(a, b, w)


def b_sub(a, b, w):
    if a.__class__ is Ptr and b.__class__ is Ptr:
        if a.o != b.o:
            raise EngineError("difference of pointers to different objects")
        x, y = a.off, b.off
        x = x & MASK[64] if x.__class__ is int else x
        y = y & MASK[64] if y.__class__ is int else y
        return tm.sub(x, y, 64)
    if a.__class__ is Ptr:
        return ptradd(a, tm.sub(0, b, 64))
    return tm.sub(a, b, w)


def b_and(a, b, w):
    if a.__class__ is Ptr or b.__class__ is Ptr:
        if b.__class__ is Ptr:
            a, b = b, a
        if b.__class__ is int and b < 16 and a.off.__class__ is int:
            return a.off & b
        raise EngineError("bit operation on a pointer")
    return tm.and_([a, b], w)


def b_or(a, b, w):
    return tm.or_(a, b, w)


def b_xor(a, b, w):
    return tm.xor([a, b], w)


def b_mul(a, b, w):
    return tm.mul(a, b, w)


def b_shift(S, op, a, k, w):
    if k.__class__ is int:
        if k >= w:
            S.bad("undefined-shift", "%s of a %d-bit value by %d" % (op, w, k), end=False)
            return tm.undef(w, "shift")
    else:
        if tm.umax(k) >= w:
            c = tm.not_(tm.ult(k, w, k.w), 1) if w < (1 << k.w) else 0
            if c.__class__ is T or c == 1:
                if S.ex.feasible(S, c):
                    f = S.fork()
                    if c.__class__ is T:
                        f.pc = f.pc + (c,)
                    S.ex.record("undefined-shift", "%s of a %d-bit value by a data-dependent amount" % (op, w), f)
    return {"shl": tm.shl, "lshr": tm.lshr, "ashr": tm.ashr}[op](a, k, w)


def b_div(S, op, a, b, w):
    z = tm.eq(b, 0, w) if b.__class__ is not int else (1 if b == 0 else 0)
    if z.__class__ is T:
        if S.ex.feasible(S, z):
            f = S.fork()
            f.pc = f.pc + (z,)
            S.ex.record("division-by-zero", op, f)
    elif z:
        S.bad("division-by-zero", op)
    return {"udiv": tm.udiv, "sdiv": tm.sdiv, "urem": tm.urem, "srem": tm.srem}[op](a, b, w)


def icmp(S, pred, a, b, w):
    pa, pb = a.__class__ in (Ptr, FnPtr), b.__class__ in (Ptr, FnPtr)
    if pa or pb:
        if pa and pb and a.__class__ is Ptr and b.__class__ is Ptr:
            if a.o == b.o:
                x, y = a.off, b.off
                x = x & MASK[64] if x.__class__ is int else x
                y = y & MASK[64] if y.__class__ is int else y
                if pred in ("ult", "ule", "ugt", "uge"):
                    pred = "s" + pred[1:]
                return icmp(S, pred, x, y, 64)
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
            raise EngineError("order of pointers to different objects")
        if pred in ("eq", "ne"):
            o = b if pa else a
            if o.__class__ is int:
                return 0 if pred == "eq" else 1
        raise EngineError("pointer comparison")
    if pred == "eq":
        return tm.eq(a, b, w)
    if pred == "ne":
        return tm.not_(tm.eq(a, b, w), 1)
    if pred == "ult":
        return tm.ult(a, b, w)
    if pred == "ugt":
        return tm.ult(b, a, w)
    if pred == "ule":
        return tm.ule(a, b, w)
    if pred == "uge":
        return tm.ule(b, a, w)
    if pred == "slt":
        return tm.slt(a, b, w)
    if pred == "sgt":
        return tm.slt(b, a, w)
    if pred == "sle":
        return tm.not_(tm.slt(b, a, w), 1)
    if pred == "sge":
        return tm.not_(tm.slt(a, b, w), 1)
    raise EngineError(pred)


def fcmp(pred, a, b):
    if a.__class__ is not float or b.__class__ is not float:
        raise EngineError("symbolic floating point")
    nan = a != a or b != b
    base = {"eq": a == b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b, "ne": a != b}
    if pred == "ord":
        return int(not nan)
    if pred == "uno":
        return int(nan)
    r = base[pred[1:]]
    return int(r and not nan) if pred[0] == "o" else int(r or nan)


def select(S, c, a, b, w):
    if c.__class__ is int:
        return a if c else b
    if a is b:
        return a
    if a.__class__ in (int, T) and b.__class__ in (int, T) and w:
        return tm.ite(c, a, b, w)
    if a.__class__ is Ptr and b.__class__ is Ptr and a.o == b.o:
        x = a.off & MASK[64] if a.off.__class__ is int else a.off
        y = b.off & MASK[64] if b.off.__class__ is int else b.off
        return Ptr(a.o, tm.ite(c, x, y, 64))
    if a.__class__ is list and b.__class__ is list:
        return [select(S, c, x, y, w) for x, y in zip(a, b)]
    raise NoMerge()


class NoMerge(Exception):
    pass


def vbin(S, op, a, b, w):
    f = BINF[op]
    return [f(S, x, y, w) for x, y in zip(a, b)]


BINF = {
    "add": lambda S, a, b, w: b_add(a, b, w), "sub": lambda S, a, b, w: b_sub(a, b, w),
    "mul": lambda S, a, b, w: b_mul(a, b, w), "and": lambda S, a, b, w: b_and(a, b, w),
    "or": lambda S, a, b, w: b_or(a, b, w), "xor": lambda S, a, b, w: b_xor(a, b, w),
    "shl": lambda S, a, b, w: b_shift(S, "shl", a, b, w), "lshr": lambda S, a, b, w: b_shift(S, "lshr", a, b, w),
    "ashr": lambda S, a, b, w: b_shift(S, "ashr", a, b, w),
    "udiv": lambda S, a, b, w: b_div(S, "udiv", a, b, w), "sdiv": lambda S, a, b, w: b_div(S, "sdiv", a, b, w),
    "urem": lambda S, a, b, w: b_div(S, "urem", a, b, w), "srem": lambda S, a, b, w: b_div(S, "srem", a, b, w),
}


def relane(v, w0, w1):
    """bitcast between vectors / integers: list of lanes of width w0 -> lanes of width w1"""
    if w0 == w1:
        return v
    if w0 > w1:
        k = w0 // w1
        return [tm.ext(x, j * w1, w1) for x in v for j in range(k)]
    k = w1 // w0
    return [tm.cat([(x, w0) for x in v[i:i + k]]) if any(x.__class__ is T for x in v[i:i + k])
            else sum(x << (w0 * j) for j, x in enumerate(v[i:i + k])) for i in range(0, len(v), k)]


# ======================================================================================= code generation
class CFn:
    pass


class Exec:
    def __init__(self, mod, feasible=None):
        self.m = mod
        self.next_obj = 0
        self.dead = {}
        self.findings = []
        self.tabcache = {}
        self.uv = {}
        self.fns = {}
        self.stubs = {}
        self.fq = feasible
        self.sat = None
        self.nins = 0
        self.nforks = 0
        self.nmerges = 0
        self.npaths = 0
        self.encoded = set()
        self.limit = 60_000_000
        self.cur = []
        self.base = State(self)
        self.globals = {}
        self.fnptr = {}
        self.feas_cache = {}
        self.nfeas = 0
        for name, (t, ini, const) in mod.globals.items():
            mod.lay(t)
        self._init_globals()
        self.run_ctors()

    def run_ctors(self):
        g = self.m.globals.get("@llvm.global_ctors")
        if not g or g[1] is None or g[1].k != "agg":
            return
        for e in g[1].v:
            fn = e.v[1]
            if fn.k == "glob":
                self.limit += 0
                outs = self.call(self.base, fn.v, [])
                if len(outs) != 1 or outs[0][0] is not self.base:
                    raise EngineError("static initialiser %s" % fn.v)
        self.encoded.clear()

    # ------------------------------------------------------------ set-up
    def _init_globals(self):
        S = self.base
        m = self.m
        for name, (t, ini, const) in m.globals.items():
            p = S.new(t.size, "global", name, 0)
            self.globals[name] = p
        for name, (t, ini, const) in m.globals.items():
            p = self.globals[name]
            if ini is not None:
                self._ginit(S, p.o, 0, t, ini)
            S.mem[p.o].const = const

    def _ginit(self, S, oid, off, t, v):
        m = self.m
        t = m.res(t)
        if v.k in ("zero", "undef"):
            return
        if v.k == "agg":
            if t.k == "a" or t.k == "v":
                for i, e in enumerate(v.v):
                    self._ginit(S, oid, off + i * m.lay(t.e).size, t.e, e)
            else:
                m.lay(t)
                for o, e, et in zip(t.offs, v.v, t.e):
                    self._ginit(S, oid, off + o, et, e)
            return
        if v.k == "str":
            S.mem[oid].b[off:off + len(v.v)] = list(v.v)
            return
        c = self.const(v)
        m.lay(t)
        if c.__class__ is float:
            import struct
            c = struct.unpack("<Q", struct.pack("<d", c))[0]
        S.write_cells(oid, off, t.size, c)

    def const(self, v):
        """concrete value of a constant operand"""
        m = self.m
        t = m.res(v.ty)
        if v.k == "int":
            return v.v
        if v.k == "fp":
            return v.v
        if v.k == "glob":
            n = m.aliases.get(v.v, v.v)
            if n in self.globals:
                return self.globals[n]
            if n not in self.fnptr:
                self.fnptr[n] = FnPtr(n)
            return self.fnptr[n]
        if v.k == "zero":
            if t.k in ("i", "ptr"):
                return 0
            if t.k == "v" or t.k == "a":
                return [0] * t.n if t.e.k in ("i", "ptr") else [self.const_zero(t.e) for _ in range(t.n)]
            return [self.const_zero(e) for e in t.e]
        if v.k == "agg":
            return [self.const(e) for e in v.v]
        if v.k == "gep":
            p = self.const(v.v[0])
            off = 0
            ct = v.x
            m.lay(ct)
            off += sgn(v.v[1].v, v.v[1].ty.n) * ct.size
            for ix in v.v[2:]:
                ct = m.res(ct)
                if ct.k in ("s", "ps"):
                    m.lay(ct)
                    off += ct.offs[ix.v]
                    ct = ct.e[ix.v]
                else:
                    off += sgn(ix.v, ix.ty.n) * m.lay(ct.e).size
                    ct = ct.e
            return Ptr(p.o, p.off + off)
        if v.k == "cast":
            return self.const(v.v)
        raise EngineError("constant %s" % v.k)

    def const_zero(self, t):
        t = self.m.res(t)
        if t.k in ("i", "ptr"):
            return 0
        if t.k in ("a", "v"):
            return [self.const_zero(t.e) for _ in range(t.n)]
        return [self.const_zero(e) for e in t.e]

    # ------------------------------------------------------------ bookkeeping
    def record(self, kind, detail, S):
        fn = self.cur[-1] if self.cur else "?"
        key = (kind, detail, fn)
        for f in self.findings:
            if (f.kind, f.detail, f.fn) == key:
                return
        self.findings.append(Finding(kind, detail, S.pc, fn))

    def uninit_var(self, o, off):
        v = tm.undef(8, "%s+%d" % (o.name, off))
        o.b[off] = (v, 0)          # one identifiable unknown per byte
        return v

    def feasible(self, S, c):
        if c.__class__ is int:
            return bool(c)
        n = tm.not_(c, 1)
        if any(p is n for p in S.pc):
            return False
        if any(p is c for p in S.pc):
            return True
        key = (S.pc, c)
        r = self.feas_cache.get(key)
        if r is None:
            self.nfeas += 1
            r = self.feas_cache[key] = self.fq(list(S.pc) + [c]) if self.fq else True
        return r

    # ------------------------------------------------------------ compile one function
    def get(self, name):
        name = self.m.aliases.get(name, name)
        f = self.fns.get(name)
        if f is None:
            src = self.m.funcs.get(name)
            if src is None:
                return None
            f = self.fns[name] = self.compile(src)
            self.encoded.add(name[1:])
        return f

    def compile(self, src):
        m = self.m
        f = CFn()
        f.name = src.name[1:]
        f.idx = {}
        for a in src.args:
            f.idx[a] = len(f.idx)
        for b in src.blocks:
            for i in b.ins:
                if i.d:
                    f.idx[i.d] = len(f.idx)
        f.nregs = len(f.idx)
        f.regw = [None] * f.nregs
        for a, t in zip(src.args, src.argtys):
            f.regw[f.idx[a]] = t.n if t.k == "i" else None
        for b in src.blocks:
            for i in b.ins:
                if i.d and i.ty is not None and i.ty.k == "i":
                    f.regw[f.idx[i.d]] = i.ty.n
        f.nargs = len(src.args)
        f.bi = {b.name: k for k, b in enumerate(src.blocks)}
        f.blocks = []
        ns = dict(T=T, Ptr=Ptr, b_add=b_add, b_sub=b_sub, b_and=b_and, b_or=b_or, b_xor=b_xor, b_mul=b_mul,
                  b_shift=b_shift, b_div=b_div, icmp=icmp, fcmp=fcmp, select=select, vbin=vbin, relane=relane,
                  ptradd=ptradd, scaled=scaled, tm=tm, ext=tm.ext, zext=tm.zext, sext=tm.sext, sgn=sgn, EX=self,
                  EngineError=EngineError, math=math)
        self.ns = ns
        code = []
        # successors
        succ = []
        for b in src.blocks:
            t = b.ins[-1]
            if t.op == "br":
                s = [f.bi[x] for x in t.x]
            elif t.op == "switch":
                s = [f.bi[t.x[0]]] + [f.bi[c[1]] for c in t.x[1]]
            elif t.op == "invoke":
                s = [f.bi[t.x[1]]]
            else:
                s = []
            succ.append(s)
        f.succ = succ
        f.ipdom = self._ipdom(len(src.blocks), succ)
        f.live = self._live(src, f, succ)
        for k, b in enumerate(src.blocks):
            cb = CFn()
            cb.phis = {}
            phis = [i for i in b.ins if i.op == "phi"]
            f.blocks.append(cb)
            if phis:
                for pred in {l for i in phis for _, l in i.ops}:
                    if pred not in f.bi:
                        continue
                    fn = "ph_%d_%d" % (k, f.bi[pred])
                    code.append("def %s(S,E):" % fn)
                    lines = []
                    for i in phis:
                        for v, l in i.ops:
                            if l == pred:
                                lines.append((f.idx[i.d], self.opnd(f, v)))
                                break
                    code.append("  " + ", ".join("E[%d]" % d for d, _ in lines) + " = " + ", ".join(e for _, e in lines))
                    cb.phis[f.bi[pred]] = fn
            steps = []
            cur = []
            n = 0

            def flush():
                nonlocal cur, n
                if cur:
                    fn = "s_%d_%d" % (k, len(steps))
                    code.append("def %s(S,E):" % fn)
                    code.extend("  " + l for l in cur)
                    steps.append(("c", fn, n))
                    cur = []
                    n = 0
            for i in b.ins:
                if i.op == "phi" or i.op == "landingpad":
                    continue
                if i.op in ("br", "switch", "ret", "unreachable", "resume"):
                    flush()
                    break
                if i.op in ("call", "invoke"):
                    c = i.x if i.op == "call" else i.x[0]
                    if c.startswith("@llvm."):
                        r = self.intrinsic(f, i, c)
                        if r is not None:
                            cur.extend(r)
                            n += 1
                            continue
                    flush()
                    fn = "a_%d_%d" % (k, len(steps))
                    code.append("def %s(S,E):" % fn)
                    code.append("  return [" + ", ".join(self.opnd(f, o) for o in i.ops) + "]")
                    if c.startswith("%"):
                        callee = ("r", f.idx[c])
                    else:
                        callee = ("f", m.aliases.get(c, c))
                    steps.append(("call", callee, fn, f.idx[i.d] if i.d else None, i))
                    continue
                if i.op == "asm":
                    if i.x[0] != '""':
                        raise EngineError("inline assembly %s" % i.x[0])
                    continue
                cur.extend(self.gen(f, i))
                n += 1
            flush()
            cb.steps = steps
            t = b.ins[-1]
            if t.op == "br":
                if len(t.x) == 1:
                    cb.term = ("j", f.bi[t.x[0]])
                else:
                    fn = "t_%d" % k
                    code.append("def %s(S,E):\n  return %s" % (fn, self.opnd(f, t.ops[0])))
                    cb.term = ("b", fn, f.bi[t.x[0]], f.bi[t.x[1]])
            elif t.op == "switch":
                fn = "t_%d" % k
                code.append("def %s(S,E):\n  return %s" % (fn, self.opnd(f, t.ops[0])))
                cb.term = ("s", fn, f.bi[t.x[0]], [(v, f.bi[l]) for v, l in t.x[1]], t.ops[0].ty.n)
            elif t.op == "ret":
                if t.ops:
                    fn = "t_%d" % k
                    code.append("def %s(S,E):\n  return %s" % (fn, self.opnd(f, t.ops[0])))
                    cb.term = ("r", fn)
                else:
                    cb.term = ("r", None)
            elif t.op == "invoke":
                cb.term = ("j", f.bi[t.x[1]])
            elif t.op in ("unreachable", "resume"):
                cb.term = ("u",)
            else:
                raise EngineError("terminator " + t.op)
        exec(compile("\n".join(code), f.name, "exec"), ns)
        for cb in f.blocks:
            cb.phis = {p: ns[fn] for p, fn in cb.phis.items()}
            cb.steps = [("c", ns[s[1]], s[2]) if s[0] == "c" else ("call", s[1], ns[s[2]], s[3], s[4]) for s in cb.steps]
            if cb.term[0] in ("b", "s") or (cb.term[0] == "r" and cb.term[1]):
                cb.term = (cb.term[0], ns[cb.term[1]]) + cb.term[2:]
        f.rty = src.rty
        return f

    def _ipdom(self, n, succ):
        """immediate post-dominators; n = virtual exit"""
        pd = [None] * (n + 1)
        full = (1 << (n + 1)) - 1
        pds = [full] * (n + 1)
        pds[n] = 1 << n
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                s = succ[b] or [n]
                v = full
                for x in s:
                    v &= pds[x]
                v |= 1 << b
                if v != pds[b]:
                    pds[b] = v
                    ch = True
        for b in range(n):
            cand = pds[b] & ~(1 << b)
            # the one that is post-dominated by all others in cand
            best = n
            for c in range(n + 1):
                if cand >> c & 1 and (pds[c] & cand) == cand:
                    best = c
                    break
            pd[b] = best
        return pd

    def _live(self, src, f, succ):
        """live-in registers per block (after its phis)"""
        nb = len(src.blocks)
        use = [set() for _ in range(nb)]
        dfn = [set() for _ in range(nb)]
        phiuse = [dict() for _ in range(nb)]      # block -> {pred: regs}

        def regs(v, acc):
            if v is None:
                return
            if v.k == "reg":
                acc.add(f.idx[v.v])
            elif v.k == "agg":
                for e in v.v:
                    regs(e, acc)
        for k, b in enumerate(src.blocks):
            for i in b.ins:
                if i.op == "phi":
                    for v, l in i.ops:
                        if l in f.bi:
                            regs(v, phiuse[k].setdefault(f.bi[l], set()))
                    continue
                u = set()
                for v in i.ops:
                    regs(v, u)
                if i.op in ("call", "invoke"):
                    c = i.x if i.op == "call" else i.x[0]
                    if c.startswith("%"):
                        u.add(f.idx[c])
                use[k] |= u - dfn[k]
                if i.d:
                    dfn[k].add(f.idx[i.d])
        phid = [set(f.idx[i.d] for i in b.ins if i.op == "phi") for b in src.blocks]
        live = [set() for _ in range(nb)]         # live after phis
        ch = True
        while ch:
            ch = False
            for k in range(nb - 1, -1, -1):
                out = set()
                for s in succ[k]:
                    out |= (live[s] - phid[s]) | phiuse[s].get(k, set())
                v = use[k] | (out - dfn[k])
                if v != live[k]:
                    live[k] = v
                    ch = True
        return live

    # ------------------------------------------------------------ operands / simple instructions
    def opnd(self, f, v):
        if v is None:
            return "None"
        if v.k == "reg":
            return "E[%d]" % f.idx[v.v]
        t = self.m.res(v.ty)
        if v.k == "int":
            return repr(v.v)
        if v.k == "fp":
            return repr(float(v.v)) if v.v == v.v and abs(v.v) != float("inf") else "float('%r')" % v.v
        if v.k == "undef":
            if t.k == "v":
                return "[%s]" % ", ".join(["tm.undef(%d,'undef')" % t.e.n] * t.n)
            if t.k == "i":
                return "tm.undef(%d,'undef')" % t.n
            if t.k == "ptr":
                return "tm.undef(64,'undef')"
            if t.k in ("s", "a"):
                return "[None]*%d" % (len(t.e) if t.k == "s" else t.n)
            return "None"
        if v.k == "agg" and any(e.k in ("reg", "undef") for e in v.v):
            return "[%s]" % ", ".join(self.opnd(f, e) for e in v.v)
        c = self.const(v)
        if c.__class__ is int:
            return repr(c)
        nm = "K%d" % len(self.ns)
        self.ns[nm] = c
        if c.__class__ is list:
            return "list(%s)" % nm
        return nm

    def gen(self, f, i):
        m = self.m
        op = i.op
        O = [self.opnd(f, o) for o in i.ops] if op != "phi" else []
        d = "E[%d]" % f.idx[i.d] if i.d else None
        t = m.res(i.ty) if i.ty is not None else None
        if op in BINF:
            if t.k == "v":
                return ["%s = vbin(S,%r,%s,%s,%d)" % (d, op, O[0], O[1], t.e.n)]
            w = t.n
            sym = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^"}.get(op)
            if sym:
                mask = " & %d" % MASK[w] if op in ("add", "sub", "mul") else ""
                return ["a=%s; b=%s" % (O[0], O[1]),
                        "%s = (a%sb)%s if a.__class__ is int and b.__class__ is int else b_%s(a,b,%d)" % (d, sym, mask, op, w)]
            if op in ("shl", "lshr", "ashr"):
                if op == "shl":
                    fast = "(a<<b) & %d" % MASK[w]
                elif op == "lshr":
                    fast = "a>>b"
                else:
                    fast = "(sgn(a,%d)>>b) & %d" % (w, MASK[w])
                return ["a=%s; b=%s" % (O[0], O[1]),
                        "%s = %s if a.__class__ is int and b.__class__ is int and b<%d else b_shift(S,%r,a,b,%d)" % (d, fast, w, op, w)]
            return ["%s = b_div(S,%r,%s,%s,%d)" % (d, op, O[0], O[1], w)]
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            s = {"fadd": "+", "fsub": "-", "fmul": "*", "fdiv": "/"}[op]
            return ["a=%s; b=%s" % (O[0], O[1]),
                    "if a.__class__ is not float or b.__class__ is not float: raise EngineError('symbolic floating point')",
                    "%s = a%sb" % (d, s)]
        if op == "icmp":
            st = m.res(i.ops[0].ty)
            if st.k == "v":
                return ["%s = [icmp(S,%r,x,y,%d) for x,y in zip(%s,%s)]" % (d, i.x, st.e.n, O[0], O[1])]
            w = st.n if st.k == "i" else 64
            fast = {"eq": "a==b", "ne": "a!=b", "ult": "a<b", "ugt": "a>b", "ule": "a<=b", "uge": "a>=b"}.get(i.x)
            if not fast:
                o = {"slt": "<", "sgt": ">", "sle": "<=", "sge": ">="}[i.x]
                h = 1 << (w - 1)
                fast = "(a^%d)%s(b^%d)" % (h, o, h)
            return ["a=%s; b=%s" % (O[0], O[1]),
                    "%s = (1 if %s else 0) if a.__class__ is int and b.__class__ is int else icmp(S,%r,a,b,%d)" % (d, fast, i.x, w)]
        if op == "fcmp":
            return ["%s = fcmp(%r,%s,%s)" % (d, i.x, O[0], O[1])]
        if op in ("zext", "sext", "trunc"):
            st = m.res(i.ops[0].ty)
            if t.k == "v":
                w0, w1 = st.e.n, t.e.n
                if op == "trunc":
                    return ["%s = [ext(a,0,%d) for a in %s]" % (d, w1, O[0])]
                return ["%s = [%s(a,%d,%d) for a in %s]" % (d, op, w0, w1, O[0])]
            w0, w1 = st.n, t.n
            if op == "zext":
                return ["a=%s" % O[0], "%s = a if a.__class__ is int else zext(a,%d,%d)" % (d, w0, w1)]
            if op == "trunc":
                return ["a=%s" % O[0], "%s = a & %d if a.__class__ is int else ext(a,0,%d)" % (d, MASK[w1], w1)]
            return ["%s = sext(%s,%d,%d)" % (d, O[0], w0, w1)]
        if op == "bitcast":
            st = m.res(i.ops[0].ty)
            if st.k == "v" or t.k == "v":
                w0 = st.e.n if st.k == "v" else st.n
                w1 = t.e.n if t.k == "v" else t.n
                src = O[0] if st.k == "v" else "[%s]" % O[0]
                r = "relane(%s,%d,%d)" % (src, w0, w1)
                return ["%s = %s" % (d, r if t.k == "v" else r + "[0]")]
            if st.k == t.k:
                return ["%s = %s" % (d, O[0])]
            raise EngineError("bitcast " + i.text)
        if op in ("ptrtoint", "inttoptr", "addrspacecast"):
            return ["%s = %s" % (d, O[0])]
        if op in ("uitofp", "sitofp"):
            w = m.res(i.ops[0].ty).n
            return ["a=%s" % O[0], "if a.__class__ is not int: raise EngineError('symbolic floating point')",
                    "%s = float(%s)" % (d, "a" if op == "uitofp" else "sgn(a,%d)" % w)]
        if op in ("fptoui", "fptosi"):
            return ["a=%s" % O[0], "if a.__class__ is not float: raise EngineError('symbolic floating point')",
                    "%s = int(a) & %d" % (d, MASK[t.n])]
        if op in ("fpext", "fptrunc"):
            return ["%s = %s" % (d, O[0])]
        if op == "fneg":
            return ["%s = -%s" % (d, O[0])]
        if op == "freeze":
            return ["%s = %s" % (d, O[0])]
        if op == "select":
            w = t.n if t.k == "i" else (t.e.n if t.k == "v" else 0)
            if m.res(i.ops[0].ty).k == "v":
                return ["%s = [select(S,c,x,y,%d) for c,x,y in zip(%s,%s,%s)]" % (d, w, O[0], O[1], O[2])]
            return ["try: %s = select(S,%s,%s,%s,%d)" % (d, O[0], O[1], O[2], w),
                    "except Exception as e: raise EngineError('select of unrelated pointers') if e.__class__.__name__=='NoMerge' else e"]
        if op == "alloca":
            m.lay(i.x)
            nm = "%s:%s" % (f.name, i.d)
            if O:
                return ["n=%s" % O[0],
                        "if n.__class__ is not int: raise EngineError('variable-length array of symbolic size')",
                        "p = S.new(n*%d,'stack',%r); E[-1].append(p.o); %s = p" % (i.x.size, nm, d)]
            return ["p = S.new(%d,'stack',%r); E[-1].append(p.o); %s = p" % (i.x.size, nm, d)]
        if op == "load":
            return self.gload(d, t, O[0])
        if op == "store":
            return self.gstore(m.res(i.ops[0].ty), O[0], O[1])
        if op == "getelementptr":
            return self.ggep(f, i, d, O)
        if op == "extractelement":
            return ["v=%s; k=%s" % (O[0], O[1]),
                    "if k.__class__ is not int: raise EngineError('symbolic lane')", "%s = v[k]" % d]
        if op == "insertelement":
            return ["v=list(%s); v[%s]=%s; %s = v" % (O[0], O[2], O[1], d)]
        if op == "shufflevector":
            mv = i.ops[2]
            if mv.k == "zero":
                idx = [0] * mv.ty.n
            else:
                idx = [e.v if e.k == "int" else 0 for e in mv.v]
            return ["v=%s+%s; %s = [%s]" % ("list(%s)" % O[0], "list(%s)" % O[1], d, ", ".join("v[%d]" % x for x in idx))]
        if op == "extractvalue":
            return ["%s = %s%s" % (d, O[0], "".join("[%d]" % x for x in i.x))]
        if op == "insertvalue":
            if len(i.x) != 1:
                raise EngineError("nested insertvalue")
            return ["v=list(%s); v[%d]=%s; %s = v" % (O[0], i.x[0], O[1], d)]
        if op == "fence":
            return []
        raise EngineError("instruction " + i.text)

    def gload(self, d, t, p):
        m = self.m
        m.lay(t)
        if t.k == "i":
            w = t.n
            if w % 8:
                return ["%s = ext(S.load(%s,%d),0,%d)" % (d, p, t.size, w)]
            return ["%s = S.load(%s,%d)" % (d, p, w // 8)]
        if t.k == "ptr":
            return ["%s = S.load(%s,8)" % (d, p)]
        if t.k == "v":
            n = t.e.n // 8
            return ["p=%s" % p, "%s = [S.load(ptradd(p,k),%d) for k in range(0,%d,%d)]" % (d, n, n * t.n, n)]
        if t.k in ("s", "a"):
            if t.k == "s":
                parts = list(zip(t.offs, t.e))
            else:
                parts = [(k * t.e.size, t.e) for k in range(t.n)]
            out = ["q=%s" % p, "r=[]"]
            for o, e in parts:
                out += self.gload("z", m.res(e), "ptradd(q,%d)" % o) + ["r.append(z)"]
            return out + ["%s = r" % d]
        if t.k == "double":
            return ["v=S.load(%s,8)" % p, "if v.__class__ is not int: raise EngineError('symbolic floating point')",
                    "import struct; %s = struct.unpack('<d', struct.pack('<Q', v))[0]" % d]
        raise EngineError("load of %s" % t)

    def gstore(self, t, v, p):
        m = self.m
        m.lay(t)
        if t.k == "i":
            w = t.n
            if w % 8:
                return ["S.store(%s,%d,zext(%s,%d,%d))" % (p, t.size, v, w, t.size * 8)]
            return ["S.store(%s,%d,%s)" % (p, w // 8, v)]
        if t.k == "ptr":
            return ["S.store(%s,8,%s)" % (p, v)]
        if t.k == "v":
            n = t.e.n // 8
            return ["p=%s" % p, "for k,x in enumerate(%s): S.store(ptradd(p,k*%d),%d,x)" % (v, n, n)]
        if t.k in ("s", "a"):
            parts = list(zip(t.offs, t.e)) if t.k == "s" else [(k * t.e.size, t.e) for k in range(t.n)]
            out = ["q=%s; r=%s" % (p, v)]
            for k, (o, e) in enumerate(parts):
                out += self.gstore(m.res(e), "r[%d]" % k, "ptradd(q,%d)" % o)
            return out
        if t.k == "double":
            return ["v=%s" % v, "if v.__class__ is not float: raise EngineError('symbolic floating point')",
                    "import struct; S.store(%s,8,struct.unpack('<Q', struct.pack('<d', v))[0])" % p]
        raise EngineError("store of %s" % t)

    def ggep(self, f, i, d, O):
        m = self.m
        ct = i.x
        m.lay(ct)
        c = 0
        dyn = []

        def addix(op, s, size):
            nonlocal c
            if op.k == "int":
                c += sgn(op.v, op.ty.n) * size
            elif op.k == "zero":
                pass
            else:
                dyn.append((s, op.ty.n, size))
        addix(i.ops[1], O[1], ct.size)
        for op, s in zip(i.ops[2:], O[2:]):
            ct = m.res(ct)
            if ct.k in ("s", "ps"):
                m.lay(ct)
                c += ct.offs[op.v]
                ct = ct.e[op.v]
            else:
                addix(op, s, m.lay(ct.e).size)
                ct = ct.e
        out = ["p=%s" % O[0]]
        if not dyn:
            out.append("%s = Ptr(p.o,p.off+%d) if p.__class__ is Ptr and p.off.__class__ is int else ptradd(p,%d)" % (d, c, c))
            return out
        e = "+".join(["x%d" % k for k in range(len(dyn))] + ([str(c)] if c else []))
        fast = ["p.__class__ is Ptr", "p.off.__class__ is int"]
        for k, (s, w, size) in enumerate(dyn):
            out.append("i%d=%s" % (k, s))
            fast.append("i%d.__class__ is int" % k)
        fx = "+".join(["(i%d if i%d<%d else i%d-%d)*%d" % (k, k, 1 << (w - 1), k, 1 << w, size) for k, (s, w, size) in enumerate(dyn)] + [str(c)])
        out.append("if %s: %s = Ptr(p.o,p.off+%s)" % (" and ".join(fast), d, fx))
        out.append("else:")
        out.append("  q=ptradd(p,%d)" % c)
        for k, (s, w, size) in enumerate(dyn):
            out.append("  q=ptradd(q,scaled(i%d,%d,%d))" % (k, w, size))
        out.append("  %s = q" % d)
        return out

    def intrinsic(self, f, i, c):
        O = [self.opnd(f, o) for o in i.ops]
        d = "E[%d]" % f.idx[i.d] if i.d else "_"
        if c.startswith(("@llvm.memcpy", "@llvm.memmove")):
            return ["S.copy(%s,%s,%s)" % (O[0], O[1], O[2])]
        if c.startswith("@llvm.memset"):
            return ["S.fill(%s,%s,%s)" % (O[0], O[1], O[2])]
        if c.startswith(("@llvm.lifetime", "@llvm.dbg", "@llvm.assume", "@llvm.stackrestore", "@llvm.experimental.noalias", "@llvm.donothing")):
            return ["pass"]
        if c.startswith("@llvm.stacksave"):
            return ["%s = 0" % d]
        if c.startswith("@llvm.ceil"):
            return ["a=%s" % O[0], "%s = float(math.ceil(a))" % d]
        if c.startswith("@llvm.floor"):
            return ["a=%s" % O[0], "%s = float(math.floor(a))" % d]
        if c.startswith("@llvm.fabs"):
            return ["%s = abs(%s)" % (d, O[0])]
        if c.startswith("@llvm.umul.with.overflow"):
            w = i.ops[0].ty.n
            return ["a=%s; b=%s" % (O[0], O[1]),
                    "if a.__class__ is not int or b.__class__ is not int: raise EngineError('symbolic umul.with.overflow')",
                    "%s = [(a*b)&%d, int(a*b>>%d != 0)]" % (d, MASK[w], w)]
        t = self.m.res(i.ty)
        if c.startswith("@llvm.fshl") or c.startswith("@llvm.fshr"):
            w = t.n
            l = c.startswith("@llvm.fshl")
            return ["a=%s; b=%s; k=%s" % tuple(O),
                    "if k.__class__ is not int: raise EngineError('symbolic funnel shift')",
                    "k %%= %d" % w,
                    ("%s = ext(tm.cat([(b,%d),(a,%d)]), %d-k, %d)" if l else "%s = ext(tm.cat([(b,%d),(a,%d)]), (k if %d else k), %d)") % (d, w, w, w, w)]
        if c.startswith("@llvm.bswap"):
            w = t.n
            return ["a=%s" % O[0], "%s = tm.cat([(ext(a,%d-8-k,8),8) for k in range(0,%d,8)]) if a.__class__ is T else int.from_bytes(a.to_bytes(%d,'little'),'big')" % (d, w, w, w // 8)]
        if c.startswith(("@llvm.umax", "@llvm.umin", "@llvm.smax", "@llvm.smin")) and t.k == "i":
            lt = "tm.slt" if c[6] == "s" else "tm.ult"
            x, y = ("b", "a") if c[7:10] == "max" else ("a", "b")
            return ["a=%s; b=%s" % (O[0], O[1]), "%s = select(S, %s(a,b,%d), %s, %s, %d)" % (d, lt, t.n, x, y, t.n)]
        if c.startswith("@llvm.abs") and t.k == "i":
            return ["a=%s" % O[0], "%s = select(S, tm.slt(a,0,%d), tm.sub(0,a,%d), a, %d)" % (d, t.n, t.n, t.n)]
        if c.startswith(("@llvm.ctpop", "@llvm.ctlz", "@llvm.cttz")):
            raise EngineError("intrinsic " + c)
        if c in CRYPTO:
            nm = "C_" + c.replace("@", "").replace(".", "_")
            self.ns[nm] = CRYPTO[c]
            return ["%s = %s(%s)" % (d, nm, ", ".join(O))]
        if c.startswith("@llvm.trap"):
            return ["S.bad('trap','trap')"]
        raise EngineError("intrinsic " + c)

    # ------------------------------------------------------------ running
    def call(self, S, name, args):
        """list of (state, return value)"""
        st = self.stubs.get(name)
        if st is not None:
            r = st(self, S, args)
            if r.__class__ is Multi:
                return r.outs
            return [(S, r)]
        f = self.get(name)
        if f is None:
            lib = LIB.get(name)
            if lib is None:
                for pre, fn in LIBPRE:
                    if name.startswith(pre):
                        lib = fn
                        break
            if lib is None:
                raise EngineError("call of unmodelled function %s" % name)
            return [(S, lib(self, S, args))]
        E = list(args[:f.nargs]) + [None] * (f.nregs - f.nargs) + [[]]
        if len(self.cur) > 200:
            raise EngineError("call depth")
        self.cur.append(f.name)
        try:
            outs = self.region(f, S, E, 0, -1, len(f.blocks), False)
        finally:
            self.cur.pop()
        res = []
        for o in outs:
            assert o[0] == "ret"
            _, S2, E2, rv = o
            for oid in E2[-1]:
                ob = S2.mem.pop(oid, None)
                if ob is not None:
                    self.dead[oid] = ob.name
            res.append((S2, rv))
        return res

    def region(self, f, S, E, blk, prev, stop, phidone):
        """execute until `stop` (its phis are evaluated) or return; outcomes ('stop',S,E) / ('ret',S,E,val)"""
        outs = []
        work = [(S, E, blk, prev, 0, phidone)]
        blocks = f.blocks
        while work:
            S, E, blk, prev, si, phidone = work.pop()
            try:
                while True:
                    B = blocks[blk]
                    if si == 0 and not phidone and B.phis:
                        B.phis[prev](S, E)
                    if blk == stop and si == 0:
                        outs.append(("stop", S, E))
                        break
                    phidone = False
                    steps = B.steps
                    n = len(steps)
                    brk = False
                    while si < n:
                        s = steps[si]
                        si += 1
                        if s[0] == "c":
                            s[1](S, E)
                            self.nins += s[2]
                        else:
                            callee = s[1]
                            if callee[0] == "f":
                                name = callee[1]
                            else:
                                fp = E[callee[1]]
                                if fp.__class__ is not FnPtr:
                                    raise EngineError("indirect call through %r" % (fp,))
                                name = fp.name
                            rs = self.call(S, name, s[2](S, E))
                            self.nins += 1
                            if not rs:
                                brk = True
                                break
                            for S2, rv in rs[1:]:
                                E2 = list(E)
                                E2[-1] = list(E[-1])
                                if s[3] is not None:
                                    E2[s[3]] = rv
                                work.append((S2, E2, blk, prev, si, True))
                            S, rv = rs[0]
                            if s[3] is not None:
                                E[s[3]] = rv
                    if brk:
                        break
                    if self.nins > self.limit:
                        raise EngineError("instruction limit")
                    si = 0
                    t = B.term
                    k = t[0]
                    if k == "j":
                        prev, blk = blk, t[1]
                        continue
                    if k == "r":
                        outs.append(("ret", S, E, t[1](S, E) if t[1] else None))
                        break
                    if k == "u":
                        if B.steps and B.steps[-1][0] == "call":
                            break       # after a noreturn call
                        S.bad("unreachable", "undefined control flow")
                    if k == "b":
                        c = t[1](S, E)
                        if c.__class__ is int:
                            prev, blk = blk, (t[2] if c else t[3])
                            continue
                        arms = [(c, t[2]), (tm.not_(c, 1), t[3])]
                        if t[2] == t[3]:
                            prev, blk = blk, t[2]
                            continue
                    else:
                        c = t[1](S, E)
                        if c.__class__ is int:
                            nb = t[2]
                            for v, l in t[3]:
                                if v == c:
                                    nb = l
                                    break
                            prev, blk = blk, nb
                            continue
                        arms = []
                        for v, l in t[3]:
                            arms.append((tm.eq(c, v, t[4]), l))
                        arms.append((tm.not_(tm.or_n([a for a, _ in arms]), 1), t[2]))
                    if tm.has_undef(c) and not any(x.kind == "uninitialised-branch" for x in self.findings) and self.depends_undef(S, c):
                        self.record("uninitialised-branch", "control flow depends on memory or registers nobody initialised", S)
                    arms = [(a, l) for a, l in arms if not (a.__class__ is int and a == 0)]
                    feas = [(a, l) for a, l in arms if self.feasible(S, a)]
                    if not feas:
                        break           # path condition itself infeasible
                    if len(feas) == 1:
                        a, l = feas[0]
                        if a.__class__ is T and a not in S.pc and len(arms) > 1 and self.need_pc(S, a):
                            S.pc = S.pc + (a,)
                        prev, blk = blk, l
                        continue
                    self.nforks += 1
                    j = f.ipdom[blk]
                    res = []
                    base = len(S.pc)
                    for n_, (a, l) in enumerate(feas):
                        if n_ < len(feas) - 1:
                            S2 = S.fork()
                            E2 = list(E)
                            E2[-1] = list(E[-1])
                        else:
                            S2, E2 = S, E
                        S2.pc = S2.pc + (a,)
                        res.extend(self.region(f, S2, E2, l, blk, j, False))
                    merged = self.merge(f, res, base, j)
                    for o in merged:
                        if o[0] == "ret":
                            outs.append(o)
                        elif j == stop:
                            outs.append(o)
                        else:
                            work.append((o[1], o[2], j, -1, 0, True))
                    break
            except PathEnd:
                continue
        if stop == len(blocks) and len(outs) > 1:
            pass
        return outs

    def need_pc(self, S, a):
        return True

    def depends_undef(self, S, c):
        """does the condition really change with the unknown bytes (some inputs, two different unknowns)?"""
        if self.sat is None:
            return True
        c2 = tm.rename_undef(c)
        r = self.sat(list(S.pc) + [tm.xor([c, c2], 1)])
        return r != "unsat"

    # ------------------------------------------------------------ merging
    def merge(self, f, res, base, j):
        groups = {}
        out = []
        for o in res:
            groups.setdefault(o[0], []).append(o)
        for kind, l in groups.items():
            acc = []
            for o in l:
                for k, p in enumerate(acc):
                    m = self.merge2(f, p, o, base, j)
                    if m is not None:
                        acc[k] = m
                        self.nmerges += 1
                        break
                else:
                    acc.append(o)
            out.extend(acc)
        return out

    def merge2(self, f, p, q, base, j):
        S1, E1, S2, E2 = p[1], p[2], q[1], q[2]
        g1 = tm.and_(list(S1.pc[base:]), 1) if len(S1.pc) > base else 1
        g2 = tm.and_(list(S2.pc[base:]), 1) if len(S2.pc) > base else 1
        if S1.pc[:base] != S2.pc[:base]:
            return None
        try:
            E = [None] * len(E1)
            if p[0] == "stop":
                # only what the join block still needs
                lv = f.live[j]
                rv = None
                for k in lv:
                    E[k] = self.mval(g1, E1[k], E2[k], f.regw[k])
            else:
                lv = ()
                rv = self.mval(g1, p[3], q[3], f.rty.n if f.rty.k == "i" else None)
            al = list(E1[-1])
            al += [o for o in E2[-1] if o not in al]
            E[-1] = al
            dead = set(al) if p[0] == "ret" else ()
            mem = {}
            m1, m2 = S1.mem, S2.mem
            ch = []
            for oid, o in m1.items():
                o2 = m2.get(oid)
                if o2 is None:
                    mem[oid] = o
                elif o2 is o or oid in dead:
                    mem[oid] = o
                elif o.b is o2.b:
                    mem[oid] = o
                else:
                    ch.append(oid)
            for oid, o in m2.items():
                if oid not in m1:
                    mem[oid] = o
            for oid in ch:
                mem[oid] = self.mobj(g1, m1[oid], m2[oid])
            trace = self.mtrace(g1, S1.trace, S2.trace)
        except NoMerge:
            return None
        S = State(self)
        S.mem = mem
        g = tm.or_(g1, g2, 1)
        S.pc = S1.pc[:base] + ((g,) if g.__class__ is T else ())
        S.trace = trace
        return (p[0], S, E) + ((rv,) if p[0] == "ret" else ())

    def mtrace(self, g, a, b):
        if a == b:
            return a
        raise NoMerge()

    def mval(self, g, a, b, w=None):
        if a is b:
            return a
        ca, cb = a.__class__, b.__class__
        if ca is int and cb is int and a == b:
            return a
        if ca is T or cb is T:
            w = a.w if ca is T else b.w
            if ca in (int, T) and cb in (int, T):
                return tm.ite(g, a, b, w)
            raise NoMerge()
        if ca is int and cb is int:
            if w is None:
                raise NoMerge()
            return tm.ite(g, a, b, w)
        if ca is Ptr and cb is Ptr:
            if a.o == b.o:
                if a.off.__class__ is int and b.off.__class__ is int and a.off == b.off:
                    return a
                x = a.off & MASK[64] if a.off.__class__ is int else a.off
                y = b.off & MASK[64] if b.off.__class__ is int else b.off
                return Ptr(a.o, tm.ite(g, x, y, 64))
            raise NoMerge()
        if ca is float and cb is float and a == b:
            return a
        if ca is V and cb is V and a.off == b.off:
            return V(self.vmerge(g, a.v, b.v), a.off)
        if ca is list and cb is list and len(a) == len(b):
            return [self.mval(g, x, y) for x, y in zip(a, b)]
        if a is None or b is None:
            return b if a is None else a
        raise NoMerge()

    def mobj(self, g, o1, o2):
        b1, b2 = o1.b, o2.b
        if len(b1) != len(b2):
            raise NoMerge()
        out = list(b1)
        i = 0
        n = len(b1)
        while i < n:
            x, y = b1[i], b2[i]
            if x is y or x == y:
                i += 1
                continue
            k = 1
            for c in (x, y):
                if c.__class__ is tuple and c[1] == 0:
                    t = c[0]
                    bb = b1 if c is x else b2
                    if t.__class__ in (Ptr, FnPtr, V):
                        kk = 8
                    else:
                        kk = t.w // 8
                    if kk > k and i + kk <= n and all(bb[i + r].__class__ is tuple and bb[i + r][0] is t and bb[i + r][1] == r for r in range(kk)):
                        k = kk
            v1 = self._rd(o1, i, k)
            v2 = self._rd(o2, i, k)
            v = self.mval8(g, v1, v2, 8 * k)
            if v.__class__ is int:
                for r in range(k):
                    out[i + r] = (v >> (8 * r)) & 255
            elif v.__class__ is T and k == 1:
                out[i] = (v, 0)
            else:
                for r in range(k):
                    out[i + r] = (v, r)
            i += k
        return Obj(out, o1.kind, o1.name, -1, o1.const)

    def mval8(self, g, a, b, w):
        if a.__class__ in (int, T) and b.__class__ in (int, T):
            return tm.ite(g, a, b, w)
        return self.mval(g, a, b)

    def _rd(self, o, i, k):
        try:
            return self.base.read_cells(o, i, k)
        except EngineError:
            raise NoMerge()


class Multi:
    def __init__(self, outs):
        self.outs = outs


# ======================================================================================= crypto intrinsics
def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 256:
            a ^= 0x11b
        b >>= 1
    return r


def _sbox():
    inv = [0] * 256
    for a in range(1, 256):
        for b in range(1, 256):
            if _gmul(a, b) == 1:
                inv[a] = b
                break
    s = []
    for a in range(256):
        x = inv[a]
        y = x
        for k in range(1, 5):
            y ^= ((x << k) | (x >> (8 - k))) & 255
        s.append(y ^ 0x63)
    return s


SBOX = _sbox()
M2 = [_gmul(x, 2) for x in range(256)]
M3 = [_gmul(x, 3) for x in range(256)]


def sub_shift(b):
    """SubBytes and ShiftRows of 16 bytes"""
    return [tm.lut(SBOX, b[4 * ((c + r) % 4) + r], 8) for c in range(4) for r in range(4)]


def mixcols(b):
    out = []
    for c in range(4):
        x = b[4 * c:4 * c + 4]
        for r in range(4):
            out.append(tm.xor([tm.lut(M2, x[r], 8), tm.lut(M3, x[(r + 1) % 4], 8), x[(r + 2) % 4], x[(r + 3) % 4]], 8))
    return out


def xor16(a, b):
    return [tm.xor([x, y], 8) for x, y in zip(a, b)]


def _aesenc(a, k):
    return relane(xor16(mixcols(sub_shift(relane(a, 64, 8))), relane(k, 64, 8)), 8, 64)


def _aesenclast(a, k):
    return relane(xor16(sub_shift(relane(a, 64, 8)), relane(k, 64, 8)), 8, 64)


def _aeskeygenassist(a, imm):
    x = relane(a, 64, 32)
    w = lambda v: tm.cat([(tm.lut(SBOX, tm.ext(v, 8 * j, 8), 8), 8) for j in range(4)])
    s1, s3 = w(x[1]), w(x[3])
    return relane([s1, tm.xor([tm.rotr(s1, 8), imm], 32), s3, tm.xor([tm.rotr(s3, 8), imm], 32)], 32, 64)


def _pshufb(a, b):
    out = []
    for x in b:
        if x.__class__ is not int:
            raise EngineError("symbolic byte shuffle")
        out.append(0 if x & 128 else a[x & 15])
    return out


CRYPTO = {
    "@llvm.x86.aesni.aesenc": _aesenc,
    "@llvm.x86.aesni.aesenclast": _aesenclast,
    "@llvm.x86.aesni.aeskeygenassist": _aeskeygenassist,
    "@llvm.x86.ssse3.pshuf.b.128": _pshufb,
    "@llvm.aarch64.crypto.aese": lambda a, b: sub_shift(xor16(a, b)),
    "@llvm.aarch64.crypto.aesmc": mixcols,
}


# ======================================================================================= library models
def l_new(ex, S, a):
    if a[0].__class__ is not int:
        raise EngineError("allocation of symbolic size")
    if a[0] > 1 << 26:
        raise EngineError("allocation of %d bytes" % a[0])
    return S.new(a[0], "new[]", "heap[%d]#%d" % (a[0], ex.next_obj))


def l_new1(ex, S, a):
    p = l_new(ex, S, a)
    S.mem[p.o].kind = "new"
    return p


def l_malloc(ex, S, a):
    p = l_new(ex, S, a)
    S.mem[p.o].kind = "malloc"
    return p


def l_calloc(ex, S, a):
    p = l_malloc(ex, S, [a[0] * a[1]])
    S.fill(p, 0, a[0] * a[1])
    return p


def _free(kind):
    return lambda ex, S, a: S.free(a[0], kind)


def l_memcpy(ex, S, a):
    S.copy(a[0], a[1], a[2])
    return a[0]


def l_memset(ex, S, a):
    v = a[1]
    S.fill(a[0], tm.ext(v, 0, 8), a[2])
    return a[0]


def l_memcmp(ex, S, a):
    if a[2].__class__ is not int:
        raise EngineError("memcmp with symbolic size")
    r = 0
    for k in range(a[2] - 1, -1, -1):
        x = S.load(ptradd(a[0], k), 1)
        y = S.load(ptradd(a[1], k), 1)
        r = tm.ite(tm.eq(x, y, 8), r, tm.ite(tm.ult(x, y, 8), MASK[32], 1, 32), 32)
    return r


def l_strlen(ex, S, a):
    o = S.obj(a[0], "read")
    i = a[0].off
    n = 0
    while True:
        c = S.read_cells(o, i + n, 1)
        if c.__class__ is not int:
            raise EngineError("strlen of symbolic text")
        if c == 0:
            return n
        n += 1


def cstr(S, p):
    o = S.obj(p, "read")
    n = l_strlen(None, S, [p])
    return bytes(o.b[p.off:p.off + n])


HEXU = [ord(c) for c in "0123456789ABCDEF"]
HEXL = [ord(c) for c in "0123456789abcdef"]


def l_sprintf(ex, S, a):
    f = cstr(S, a[1])
    return _fmt(ex, S, a[0], f, a[2:])


def l_snprintf(ex, S, a):
    # only when the result is known to fit
    f = cstr(S, a[2])
    tmp = S.new(4096, "stack", "snprintf")
    n = _fmt(ex, S, tmp, f, a[3:])
    lim = a[1]
    if lim.__class__ is not int:
        raise EngineError("snprintf with symbolic size")
    if lim:
        k = min(n, lim - 1)
        S.copy(a[0], tmp, k)
        S.store(ptradd(a[0], k), 1, 0)
    del S.mem[tmp.o]
    return n


def _fmt(ex, S, dst, f, args):
    pos = 0
    i = 0
    ai = 0
    while i < len(f):
        ch = f[i]
        if ch != 37:
            S.store(ptradd(dst, pos), 1, ch)
            pos += 1
            i += 1
            continue
        j = i + 1
        spec = b""
        while chr(f[j]) not in "xXdsuc%":
            spec += bytes([f[j]])
            j += 1
        conv = chr(f[j])
        i = j + 1
        if conv in "xX" and spec in (b"02", b"02hh", b"2.2", b".2", b".2hh"):
            v = args[ai]
            ai += 1
            if v.__class__ is T and v.w < 32:
                v = tm.zext(v, v.w, 32)
            if b"hh" in spec:
                v = tm.ext(v, 0, 8)
            if (v >> 8 if v.__class__ is int else tm.umax(v) >> 8):
                raise EngineError("hexadecimal conversion of more than a byte")
            b8 = tm.ext(v, 0, 8)
            tab = HEXU if conv == "X" else HEXL
            S.store(ptradd(dst, pos), 1, tm.lut(tab, tm.ext(b8, 4, 4), 8))
            S.store(ptradd(dst, pos + 1), 1, tm.lut(tab, tm.ext(b8, 0, 4), 8))
            pos += 2
        elif conv == "%":
            S.store(ptradd(dst, pos), 1, 37)
            pos += 1
        else:
            v = args[ai]
            ai += 1
            if v.__class__ is not int:
                raise EngineError("format %%%s%s of a symbolic value" % (spec.decode(), conv))
            s = ("%" + spec.decode().replace("l", "").replace("h", "") + conv) % v
            for c in s.encode():
                S.store(ptradd(dst, pos), 1, c)
                pos += 1
    S.store(ptradd(dst, pos), 1, 0)
    return pos


def l_nop0(ex, S, a):
    return a[0] if a else 0


def l_exit(ex, S, a):
    ex.exits.append((S, a[0])) if hasattr(ex, "exits") else None
    raise PathEnd()


def l_ceil(ex, S, a):
    return float(math.ceil(a[0]))


def l_guard_acquire(ex, S, a):
    v = S.load(a[0], 1)
    if v.__class__ is not int:
        raise EngineError("symbolic guard")
    return 0 if v else 1


def l_guard_release(ex, S, a):
    S.store(a[0], 1, 1)
    return 0


def l_noreturn(ex, S, a):
    S.bad("exception", "the library reports an error by throwing or aborting")


LIB = {
    "@__cxa_guard_acquire": l_guard_acquire, "@__cxa_guard_release": l_guard_release, "@abort": l_noreturn,
    "@__assert_fail": l_noreturn, "@_ZSt20__throw_length_errorPKc": l_noreturn, "@_ZSt17__throw_bad_allocv": l_noreturn,
    "@_ZSt28__throw_bad_array_new_lengthv": l_noreturn, "@_ZSt24__throw_out_of_range_fmtPKcz": l_noreturn,
    "@_Znam": l_new, "@_Znwm": l_new1, "@malloc": l_malloc, "@calloc": l_calloc,
    "@_ZdaPv": _free("new[]"), "@_ZdlPv": _free("new"), "@_ZdaPvm": lambda ex, S, a: S.free(a[0], "new[]"),
    "@_ZdlPvm": lambda ex, S, a: S.free(a[0], "new"), "@free": _free("malloc"),
    "@memcpy": l_memcpy, "@memmove": l_memcpy, "@memset": l_memset, "@memcmp": l_memcmp, "@bcmp": l_memcmp,
    "@strlen": l_strlen, "@sprintf": l_sprintf, "@snprintf": l_snprintf, "@exit": l_exit, "@ceil": l_ceil,
    "@printf": lambda ex, S, a: 0, "@puts": lambda ex, S, a: 0, "@putchar": lambda ex, S, a: 0,
    "@fprintf": lambda ex, S, a: 0, "@fflush": lambda ex, S, a: 0,
}
LIBPRE = [("@_ZStls", l_nop0), ("@_ZNSols", l_nop0), ("@_ZNSolsE", l_nop0), ("@_ZSt4endl", l_nop0), ("@_ZSt3hex", l_nop0),
          ("@_ZSt3dec", l_nop0), ("@_ZNSt8ios_base", l_nop0), ("@__cxa_atexit", l_nop0), ("@_ZStl", l_nop0)]

"""Models of the GMP integer functions for the symbolic engine.

An mpz_t holds an abstract integer (the 8 bytes of its limb pointer refer to it). Values are
  int        a known integer
  BV         an integer given by a bit-vector term with known bounds (exact: operations widen as needed)
  El         a unit modulo N or p, known only by its class: the residue is y^cls times a 2^K-th power. An element raised to
             (p-1)/2^K lies in the group of 2^K-th roots of unity modulo p, where g = y^((p-1)/2^K) has order exactly 2^K
             because p is prime and y is a non-residue; there the class determines the element (sub = True)
  At         a multiple of p-1, p, N or q of a key that is left arbitrary
The classes make statements about every key, message and randomness decidable at the real message widths."""
import math
import terms as tm
from terms import T, MASK
import symex
from symex import EngineError, Multi, PathEnd, Ptr, V

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]


def is_prime(n):
    if n < 2:
        return False
    for p in PRIMES:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in PRIMES:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def jacobi(a, n):
    a %= n
    r = 1
    while a:
        while a % 2 == 0:
            a //= 2
            if n % 8 in (3, 5):
                r = -r
        a, n = n, a
        if a % 4 == 3 and n % 4 == 3:
            r = -r
        a %= n
    return r if n == 1 else 0


class BV:
    __slots__ = ("t", "w", "lo", "hi")

    def __init__(self, t, w, lo, hi):
        self.t, self.w, self.lo, self.hi = t, w, lo, hi


class El:
    """unit of Z_N (mod 'N') or Z_p (mod 'p')"""
    __slots__ = ("cls", "mod", "sub", "red")

    def __init__(self, cls, mod, sub=False, red=True):
        self.cls, self.mod, self.sub, self.red = cls, mod, sub, red


class At:
    """c * name / 2^s with name in 'N', 'p', 'q', 'p-1'"""
    __slots__ = ("name", "c", "s")

    def __init__(self, name, c=1, s=0):
        self.name, self.c, self.s = name, c, s

    def key(self):
        return (self.name, self.c, self.s)


def bits(lo, hi):
    """(signed, width)"""
    if lo >= 0:
        return False, max(1, hi.bit_length())
    return True, max((-lo - 1).bit_length(), hi.bit_length() if hi > 0 else 0) + 1


def mk(t, w, lo, hi):
    """value of the w-bit term t (two's complement when lo < 0), known to lie in [lo, hi]"""
    if t.__class__ is int:
        t &= MASK[w] if w in MASK else (1 << w) - 1
        return t - (1 << w) if lo < 0 and t >> (w - 1) else t
    if lo >= 0:
        u = tm.umax(t)
        hi = min(hi, u)
    s, n = bits(lo, hi)
    if n < w:
        t = tm.ext(t, 0, n)
        w = n
        if t.__class__ is int:
            return mk(t, w, lo, hi)
    return BV(t, w, lo, hi)


def rng(v):
    return (v, v) if v.__class__ is int else (v.lo, v.hi)


def at_w(v, w):
    """the value as a w-bit term modulo 2^w"""
    if v.__class__ is int:
        return v & ((1 << w) - 1)
    if v.w >= w:
        return low(v.t, w)
    return tm.zext(v.t, v.w, w) if v.lo >= 0 else tm.sext(v.t, v.w, w)


def low(t, w, memo=None):
    """the w low bits of a term; sums and products are computed on w bits"""
    if t.__class__ is int:
        return t & ((1 << w) - 1)
    if t.w <= w:
        return t if t.w == w else tm.zext(t, t.w, w)
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        if t.op == "add":
            co, c = t.x
            r = tm.add_n([(k & ((1 << w) - 1), low(p, w, memo)) for k, p in zip(co, t.a)], c & ((1 << w) - 1), w)
        elif t.op == "mul":
            r = tm.mul(low(t.a[0], w, memo), low(t.a[1], w, memo), w)
        elif t.op == "ite":
            r = tm.ite(t.a[0], low(t.a[1], w, memo), low(t.a[2], w, memo), w)
        else:
            r = tm.ext(t, 0, w)
        memo[t] = r
    return r


def num(v):
    return v.__class__ in (int, BV)


class Gmp:
    def __init__(self, K, key=None, elem=True, oracle=False, draws=(), limit=3, toy=False):
        """K: message bits; key: dict p, q, N, y of known integers or None for an arbitrary key; draws: values urandomm
        delivers; oracle: primality and residue tests answer arbitrarily (key generation)"""
        self.K = K
        self.key = key
        self.elem = elem
        self.oracle = oracle
        self.draws = list(draws)
        self.limit = limit
        self.n = 0
        self.facts = {}           # term -> answer variable of the primality test
        self.legs = {}
        self.bound = {}           # variable -> exclusive bound delivered by urandomm
        self.assume = []
        self.fresh = {}
        self.cuts = []
        self.prods = {}
        self.prodlist = []

    # ---------------------------------------------------------------- cells
    def get(self, S, p):
        if p.__class__ is not Ptr:
            S.obj(p, "read")
        o = S.obj(p, "read")
        if p.off.__class__ is not int:
            raise EngineError("mpz at a symbolic address")
        if p.off + 16 > len(o.b) or p.off < 0:
            S.bad("out-of-bounds", "mpz outside %s" % o.name)
        c = o.b[p.off + 8]
        if c.__class__ is tuple and c[0].__class__ is V:
            return c[0].v
        S.bad("uninitialised-mpz", "use of an mpz_t that was not initialised (%s)" % o.name)

    def put(self, S, p, v, init=False):
        if not init:
            self.get(S, p)
        o = S.obj(p, "write")
        if p.off < 0 or p.off + 16 > len(o.b):
            S.bad("out-of-bounds", "mpz outside %s" % o.name)
        S.write_cells(p.o, p.off, 4, 1)
        S.write_cells(p.o, p.off + 4, 4, self.sign32(v))
        S.write_cells(p.o, p.off + 8, 8, V(v))

    def sign32(self, v):
        if v.__class__ is int:
            return 0 if v == 0 else 1 if v > 0 else MASK[32]
        if v.__class__ is BV:
            z = tm.ite(tm.eq(v.t, 0, v.w), 0, 1, 32)
            if v.lo >= 0:
                return z
            return tm.ite(tm.eq(tm.ext(v.t, v.w - 1, 1), 1, 1), MASK[32], z, 32)
        if v.__class__ is At:
            return 1 if v.c > 0 else MASK[32]
        return 1

    def factors(self, n):
        if n.__class__ is not BV:
            return None
        for v, a, b in self.prodlist:
            if v is n.t:
                return a, b
        return None

    # ---------------------------------------------------------------- elements
    def var(self, pre, w):
        self.n += 1
        return tm.var("%s.%d" % (pre, self.n), w)

    def toel(self, v, mod):
        """an integer as a unit; what is not known about it becomes an unknown class"""
        if v.__class__ is El:
            return v
        if v.__class__ is int:
            if v == 1:
                return El(0, mod, True, True)
            if self.key:
                return El(self.dlog(v), mod, False, 0 <= v < (self.key["N"] if mod == "N" else self.key["p"]))
            k = ("c", v, mod)
        elif v.__class__ is BV:
            k = ("t", v.t, mod)
        elif v.__class__ is At:
            raise EngineError("unit %s" % v.name)
        if k not in self.fresh:
            self.fresh[k] = self.var("unit", self.K)
        return El(self.fresh[k], mod, False, True)

    def dlog(self, c):
        """class of a known integer"""
        p, y = self.key["p"], self.key["y"]
        e = (p - 1) >> self.K
        g, h = pow(y, e, p), pow(c, e, p)
        if h == 0:
            raise EngineError("a value that is no unit")
        r = 0
        gi = pow(g, -1, p)
        for i in range(self.K):
            if pow(h * pow(gi, r, p) % p, 1 << (self.K - 1 - i), p) != 1:
                r |= 1 << i
        return r

    def which(self, v):
        """'N', 'p' or None for a modulus"""
        if v.__class__ is At:
            return v.name if (v.c, v.s) == (1, 0) else None
        if v.__class__ is int and self.key:
            return "N" if v == self.key["N"] else "p" if v == self.key["p"] else None
        return None

    def etop(self, e):
        """exponent e as c * (p-1)/2^s, or None"""
        if e.__class__ is At and e.name == "p-1":
            return e.c, e.s
        if e.__class__ is int and self.key and self.elem and e:
            q = (self.key["p"] - 1) >> self.K
            if e % q == 0:
                return e // q, self.K
        return None

    # ---------------------------------------------------------------- arithmetic
    def add(self, a, b):
        if a.__class__ is int and b.__class__ is int:
            return a + b
        if num(a) and num(b):
            lo, hi = rng(a)[0] + rng(b)[0], rng(a)[1] + rng(b)[1]
            s, w = bits(lo, hi)
            return mk(tm.add(at_w(a, w), at_w(b, w), w), w, lo, hi)
        if a.__class__ is At and b.__class__ is int:
            if b == 0:
                return a
            if a.name == "p" and (a.c, a.s) == (1, 0) and b == -1:
                return At("p-1")
            if a.name == "p-1" and (a.c, a.s) == (1, 0) and b == 1:
                return At("p")
        if b.__class__ is At and a.__class__ is int:
            return self.add(b, a)
        if a.__class__ is El and b.__class__ is int and b == 0:
            return a
        if b.__class__ is El and a.__class__ is int and a == 0:
            return b
        raise EngineError("sum outside the model")

    def neg(self, a):
        if a.__class__ is int:
            return -a
        if a.__class__ is BV:
            lo, hi = -a.hi, -a.lo
            s, w = bits(lo, hi)
            w = max(w, 1)
            return mk(tm.sub(0, at_w(a, w), w), w, lo, hi)
        if a.__class__ is At:
            return At(a.name, -a.c, a.s)
        raise EngineError("negation outside the model")

    def sub(self, a, b):
        if num(a) and num(b):
            if a.__class__ is int and b.__class__ is int:
                return a - b
            if a.__class__ is BV and b.__class__ is BV and a.lo >= 0 and b.lo >= 0 and b.w < a.w and tm.ext(a.t, 0, b.w) is b.t:
                # v - (v mod 2^k): the low bits are cleared
                return mk(tm.and_([a.t, MASK2(a.w) ^ MASK2(b.w)], a.w), a.w, 0, a.hi & ~MASK2(b.w))
            lo, hi = rng(a)[0] - rng(b)[1], rng(a)[1] - rng(b)[0]
            s, w = bits(lo, hi)
            return mk(tm.sub(at_w(a, w), at_w(b, w), w), w, lo, hi)
        if a.__class__ is El and b.__class__ is int and b == 0:
            return a
        return self.add(a, self.neg(b))

    def mul(self, a, b):
        if a.__class__ is int and b.__class__ is int:
            return a * b
        for x, y in ((a, b), (b, a)):
            if x.__class__ is int and x in (0, 1):
                return y if x else 0
        if num(a) and num(b):
            c = [x * y for x in rng(a) for y in rng(b)]
            lo, hi = min(c), max(c)
            s, w = bits(lo, hi)
            if self.oracle and w > 40 and lo >= 0 and a.__class__ is BV and b.__class__ is BV:
                # a product of two secrets: any value within the bounds, the same one for the same factors
                k = (a.t, b.t) if a.t.id <= b.t.id else (b.t, a.t)
                if k not in self.prods:
                    self.prods[k] = self.var("prod", w)
                    self.prodlist.append((mk(self.prods[k], w, lo, hi).t, a, b))
                return mk(self.prods[k], w, lo, hi)
            r = mk(tm.mul(at_w(a, w), at_w(b, w), w), w, lo, hi)
            if self.oracle and a.__class__ is BV and b.__class__ is BV:
                self.prodlist.append((r.t, a, b))
            return r
        if a.__class__ is At or b.__class__ is At:
            for x, y in ((a, b), (b, a)):
                if x.__class__ is At and y.__class__ is int:
                    return self.norm_at(At(x.name, x.c * y, x.s))
                if x.__class__ is At and y.__class__ is At and {x.name, y.name} == {"p", "q"}:
                    return At("N", x.c * y.c, 0)
            raise EngineError("product outside the model")
        mod = a.mod if a.__class__ is El else b.mod
        if a.__class__ is El and b.__class__ is El and a.mod != b.mod:
            mod = "p" if "p" in (a.mod, b.mod) else "N"
        x, y = self.toel(a, mod), self.toel(b, mod)
        return El(tm.add(x.cls, y.cls, self.K), mod, x.sub and y.sub, False)

    def norm_at(self, a):
        while a.s and a.c % 2 == 0:
            a = At(a.name, a.c // 2, a.s - 1)
        return a

    def divexact(self, a, b, how="exact"):
        if a.__class__ is int and b.__class__ is int:
            if b == 0:
                raise EngineError("division by zero")
            if how == "floor":
                return a // b
            if how == "ceil":
                return -(-a // b)
            return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        if b.__class__ is int and b == 1:
            return a
        if b.__class__ is int and b > 0 and b & (b - 1) == 0:
            s = b.bit_length() - 1
            if a.__class__ is At:
                if a.name == "p-1" and a.s + s <= self.K:
                    return self.norm_at(At(a.name, a.c, a.s + s))
                if a.name == "p" and (a.c, a.s) == (1, 0) and 0 < s <= self.K and how in ("floor", "trunc"):
                    return At("p-1", 1, s)
                raise EngineError("inexact division of the key")
            if a.__class__ is BV and a.lo >= 0 and how != "ceil":
                if s >= a.w:
                    return 0
                return mk(tm.ext(a.t, s, a.w - s), a.w - s, 0, a.hi >> s)
            if a.__class__ is BV and how in ("floor", "exact"):
                w = max(a.w, s + 1)
                return mk(tm.sext(tm.ext(at_w(a, w), s, w - s), w - s, w), w, a.lo >> s, a.hi >> s)
        if a.__class__ is BV and b.__class__ is int and b > 0 and a.lo >= 0 and how != "ceil":
            return mk(tm.udiv(a.t, b & ((1 << a.w) - 1), a.w), a.w, a.lo // b, a.hi // b) if b <= a.hi else 0
        if a.__class__ is BV and b.__class__ is BV and a.lo >= 0 and b.lo > 0 and how != "ceil":
            w = max(a.w, b.w)
            return mk(tm.udiv(at_w(a, w), at_w(b, w), w), w, 0, a.hi)
        raise EngineError("division outside the model")

    def mod(self, a, m):
        """a mod |m| in [0, |m|)"""
        if m.__class__ is int and m < 0:
            m = -m
        if a.__class__ is int and m.__class__ is int:
            if m == 0:
                raise EngineError("modulus zero")
            return a % m
        if num(a) and m.__class__ is int:
            lo, hi = rng(a)
            if m == 1:
                return 0
            if lo >= 0 and hi < m:
                return a
            if m & (m - 1) == 0:
                k = m.bit_length() - 1
                return mk(at_w(a, k), k, 0, m - 1)
            s, w = bits(lo, hi)
            if lo < 0:
                a = self.add(a, m * ((-lo + m - 1) // m))
                w = a.w
            return mk(tm.urem(a.t, m & ((1 << w) - 1), w), w, 0, m - 1) if a.hi >= m else a
        if num(a) and m.__class__ is BV and rng(a)[0] >= 0 and m.lo > 0:
            w = max(at(a), m.w)
            return mk(tm.urem(at_w(a, w), at_w(m, w), w), w, 0, m.hi - 1)
        k = self.which(m)
        if a.__class__ is El:
            if k == a.mod:
                return El(a.cls, a.mod, a.sub, True)
            if k == "p" and a.mod == "N":
                return El(a.cls, "p", False, True)
            raise EngineError("reduction of a unit by another modulus")
        if k and a.__class__ is int:
            if a == 0:
                return 0
            if a == 1:
                return 1
            return self.toel(a, k)
        if a.__class__ is BV and k:
            return self.toel(a, k)
        if a.__class__ is At and m.__class__ is int and m > 0 and m & (m - 1) == 0 and m <= 1 << self.K and (a.c, a.s) == (1, 0):
            if a.name == "p":
                return 1
            if a.name == "p-1":
                return 0
        raise EngineError("reduction outside the model")

    def powm(self, b, e, m):
        if b.__class__ is int and e.__class__ is int and m.__class__ is int:
            try:
                return pow(b, e, m)
            except ValueError:
                raise EngineError("inverse does not exist")
        k = self.which(m)
        if k and self.elem and (k == "N" or k == "p"):
            K = self.K
            if b.__class__ is int and b == 0:
                return 0
            x = self.toel(b, "N" if k == "N" else "p")
            if b.__class__ is El and b.mod == "p" and k == "N":
                raise EngineError("element modulo p raised modulo N")
            if x.__class__ is El and x.mod == "N" and k == "p":
                x = El(x.cls, "p", False, True)
            f = self.etop(e)
            if f:
                c, s = f
                if k != "p":
                    raise EngineError("exponent (p-1)/2^s modulo N")
                if s > K:
                    raise EngineError("(p-1)/2^s with s > K")
                cls = tm.mul(self.cut(x.cls), (c << (K - s)) & MASK2(K), K)
                if not x.sub:
                    return El(cls, "p", True, True)
                raise EngineError("second projection of a root of unity")
            if e.__class__ is At:
                raise EngineError("exponent outside the model")
            return El(tm.mul(x.cls, at_w(e, K), K), k, x.sub, True)
        if m.__class__ is int:
            if b.__class__ is BV and b.lo >= 0 and e.__class__ is int and b.w <= 14:
                def f(i):
                    try:
                        return pow(i, e, m)
                    except ValueError:
                        return 0            # no inverse: GMP does not return; outside what callers may pass
                return mk(tm.lut([f(i) for i in range(1 << b.w)], b.t, max(1, (m - 1).bit_length())), max(1, (m - 1).bit_length()), 0, m - 1)
            if b.__class__ is int and e.__class__ is BV and e.lo >= 0 and e.w <= 14:
                return mk(tm.lut([pow(b, i, m) for i in range(1 << e.w)], e.t, max(1, (m - 1).bit_length())), max(1, (m - 1).bit_length()), 0, m - 1)
            if num(b) and e.__class__ is BV and e.lo >= 0 and e.w <= 8:
                r = 1
                for i in range(e.w):
                    f = self.powm(b, 1 << i, m)
                    r = self.ite(tm.ext(e.t, i, 1), self.mod(self.mul(r, f), m), r)
                return r
            if b.__class__ is BV and b.w > 14 and e.__class__ is int and m <= 1 << 14:
                return self.powm(self.mod(b, m), e, m)
        raise EngineError("power outside the model")

    def cut(self, cls):
        """a free variable in place of a composite class; its meaning is kept aside"""
        if cls.__class__ is int or cls.op == "v":
            return cls
        for v, t in self.cuts:
            if t is cls:
                return v
        v = self.var("cls", self.K)
        self.cuts.append((v, cls))
        return v

    def invert(self, a, m):
        if a.__class__ is int and m.__class__ is int:
            return pow(a, -1, m)
        k = self.which(m)
        if k and self.elem:
            x = self.toel(a, k)
            return El(tm.sub(0, x.cls, self.K), k, x.sub and k == x.mod, True)
        if a.__class__ is BV and m.__class__ is int and a.w <= 14 and a.lo >= 0:
            t = [pow(i, -1, m) if math.gcd(i, m) == 1 else 0 for i in range(1 << a.w)]
            return mk(tm.lut(t, a.t, m.bit_length()), m.bit_length(), 0, m - 1)
        raise EngineError("inverse outside the model")

    def ite(self, c, a, b):
        if c.__class__ is int:
            return a if c else b
        if a is b or (a.__class__ is int and b.__class__ is int and a == b):
            return a
        if num(a) and num(b):
            lo, hi = min(rng(a)[0], rng(b)[0]), max(rng(a)[1], rng(b)[1])
            s, w = bits(lo, hi)
            return mk(tm.ite(c, at_w(a, w), at_w(b, w), w), w, lo, hi)
        if a.__class__ is El or b.__class__ is El:
            mod = a.mod if a.__class__ is El else b.mod
            for x in (a, b):
                if x.__class__ is At or x.__class__ is BV or (x.__class__ is int and x != 1):
                    raise symex.NoMerge()
            x, y = self.toel(a, mod), self.toel(b, mod)
            if x.mod != y.mod:
                raise symex.NoMerge()
            return El(tm.ite(c, x.cls, y.cls, self.K), mod, x.sub and y.sub, x.red and y.red)
        if a.__class__ is At and b.__class__ is At and a.key() == b.key():
            return a
        raise symex.NoMerge()

    def cmp(self, a, b):
        """32-bit result of a comparison"""
        if a.__class__ is int and b.__class__ is int:
            return (a > b) - (a < b) & MASK[32]
        if num(a) and num(b):
            la, ha = rng(a)
            lb, hb = rng(b)
            if la > hb:
                return 1
            if ha < lb:
                return MASK[32]
            s, w = bits(min(la, lb), max(ha, hb))
            x, y = at_w(a, w), at_w(b, w)
            lt = tm.slt(x, y, w) if s else tm.ult(x, y, w)
            return tm.ite(tm.eq(x, y, w), 0, tm.ite(lt, MASK[32], 1, 32), 32)
        if a.__class__ is El:
            if b.__class__ is int and b <= 0:
                return 1
            if b.__class__ is int and b == 1:
                y = El(0, a.mod, True, True)
            elif b.__class__ is At and b.name == "p-1" and (b.c, b.s) == (1, 0) or (b.__class__ is int and self.key and b == self.key["p"] - 1):
                y = El(1 << (self.K - 1), a.mod, True, True)
            elif b.__class__ is El:
                y = b
            elif self.which(b) == a.mod and a.red:
                return MASK[32]
            else:
                raise EngineError("comparison of a unit")
            if a.sub and y.sub and a.mod == y.mod == "p" and a.red and y.red:
                return tm.ite(tm.eq(a.cls, y.cls, self.K), 0, 1, 32)
            if a.sub and y.sub and a.cls.__class__ is int and y.cls.__class__ is int and a.red and y.red:
                return 0 if a.cls == y.cls else 1
            raise EngineError("comparison of units known by class only")
        if b.__class__ is El:
            r = self.cmp(b, a)
            return r if r.__class__ is int and r == 0 else tm.sub(0, r, 32)
        if a.__class__ is At and b.__class__ is int and a.c > 0 and b <= 1:
            return 1
        raise EngineError("comparison outside the model")


def at(v):
    return v.w if v.__class__ is BV else max(1, v.bit_length())


def MASK2(w):
    return (1 << w) - 1


# ======================================================================================= the functions
def sx32(v):
    return v - (1 << 32) if v >> 31 else v


def sx64(v):
    return v - (1 << 64) if v >> 63 else v


def ui(v, w=64):
    """an unsigned argument as a value"""
    return v & MASK2(w) if v.__class__ is int else mk(tm.ext(v, 0, w) if v.w > w else v, min(w, v.w), 0, MASK2(min(w, v.w)))


def si(v):
    if v.__class__ is int:
        return sx64(v)
    return mk(v, 64, -(1 << 63), (1 << 63) - 1)


def install(ex, g):
    """stubs for the engine"""
    st = {}
    G = g.get

    def fn(*names):
        def d(f):
            for n in names:
                st["@__gmpz_" + n] = f
            return f
        return d

    @fn("init", "init2", "inits")
    def _(ex, S, a):
        g.put(S, a[0], 0, True)

    @fn("init_set")
    def _(ex, S, a):
        g.put(S, a[0], G(S, a[1]), True)

    @fn("init_set_ui")
    def _(ex, S, a):
        g.put(S, a[0], ui(a[1]), True)

    @fn("init_set_si")
    def _(ex, S, a):
        g.put(S, a[0], si(a[1]), True)

    @fn("clear")
    def _(ex, S, a):
        G(S, a[0])
        o = S.wobj(a[0].o)
        o.b[a[0].off:a[0].off + 16] = [None] * 16

    @fn("set")
    def _(ex, S, a):
        g.put(S, a[0], G(S, a[1]))

    @fn("set_ui")
    def _(ex, S, a):
        g.put(S, a[0], ui(a[1]))

    @fn("set_si")
    def _(ex, S, a):
        g.put(S, a[0], si(a[1]))

    @fn("swap")
    def _(ex, S, a):
        x, y = G(S, a[0]), G(S, a[1])
        g.put(S, a[0], y)
        g.put(S, a[1], x)

    def op2(name, f, u=False, s=False):
        def h(ex, S, a):
            y = G(S, a[2]) if not u and not s else ui(a[2]) if u else si(a[2])
            g.put(S, a[0], f(G(S, a[1]), y))
        st["@__gmpz_" + name] = h
    op2("add", g.add)
    op2("add_ui", g.add, u=True)
    op2("sub", g.sub)
    op2("sub_ui", g.sub, u=True)
    op2("mul", g.mul)
    op2("mul_ui", g.mul, u=True)
    op2("mul_si", g.mul, s=True)
    op2("divexact", g.divexact)
    op2("divexact_ui", g.divexact, u=True)
    op2("tdiv_q", lambda a, b: g.divexact(a, b, "trunc"))
    op2("fdiv_q", lambda a, b: g.divexact(a, b, "floor"))
    op2("cdiv_q", lambda a, b: g.divexact(a, b, "ceil"))
    op2("mod", g.mod)
    op2("fdiv_r", g.mod)
    op2("mul_2exp", lambda a, k: g.mul(a, 1 << known(k)), u=True)
    op2("fdiv_q_2exp", lambda a, k: g.divexact(a, 1 << known(k), "floor"), u=True)
    op2("tdiv_q_2exp", lambda a, k: g.divexact(a, 1 << known(k), "trunc"), u=True)
    op2("fdiv_r_2exp", lambda a, k: g.mod(a, 1 << known(k)), u=True)
    op2("pow_ui", lambda a, k: power(g, a, known(k)), u=True)

    def known(k):
        if k.__class__ is not int:
            raise EngineError("symbolic shift or power")
        return k

    def power(g, a, k):
        r = 1
        if a.__class__ is int:
            return a ** k
        for _ in range(k):
            r = g.mul(r, a)
        return r

    @fn("tdiv_r", "tdiv_r_2exp")
    def _(ex, S, a):
        x = G(S, a[1])
        if num(x) and rng(x)[0] < 0:
            raise EngineError("truncating remainder of a negative value")
        st["@__gmpz_mod"](ex, S, a)

    st["@__gmpz_tdiv_r_2exp"] = lambda ex, S, a: g.put(S, a[0], nonneg_mod(g, G(S, a[1]), 1 << known(a[2])))

    def nonneg_mod(g, x, m):
        if num(x) and rng(x)[0] < 0:
            raise EngineError("truncating remainder of a negative value")
        return g.mod(x, m)

    def qr(how):
        def h(ex, S, a):
            x, y = G(S, a[2]), G(S, a[3])
            if num(x) and rng(x)[0] < 0:
                raise EngineError("division of a negative value")
            g.put(S, a[0], g.divexact(x, y, how))
            g.put(S, a[1], g.mod(x, y))
        return h
    st["@__gmpz_fdiv_qr"] = qr("floor")
    st["@__gmpz_tdiv_qr"] = qr("trunc")

    @fn("ui_sub")
    def _(ex, S, a):
        g.put(S, a[0], g.sub(ui(a[1]), G(S, a[2])))

    @fn("neg")
    def _(ex, S, a):
        g.put(S, a[0], g.neg(G(S, a[1])))

    @fn("abs")
    def _(ex, S, a):
        x = G(S, a[1])
        if x.__class__ is int:
            x = abs(x)
        elif x.__class__ is BV and x.lo < 0:
            x = g.ite(tm.ext(x.t, x.w - 1, 1), g.neg(x), x)
        g.put(S, a[0], x)

    def addmul(name, f, u):
        def h(ex, S, a):
            y = ui(a[2]) if u else G(S, a[2])
            g.put(S, a[0], f(G(S, a[0]), g.mul(G(S, a[1]), y)))
        st["@__gmpz_" + name] = h
    addmul("addmul", g.add, False)
    addmul("addmul_ui", g.add, True)
    addmul("submul", g.sub, False)
    addmul("submul_ui", g.sub, True)

    def rem_ui(store):
        def h(ex, S, a):
            r = g.mod(G(S, a[-2]), ui(a[-1]))
            if store:
                g.put(S, a[0], r)
            return at_w(r, 64)
        return h
    for n in ("fdiv", "mod"):
        st["@__gmpz_%s_r_ui" % n] = rem_ui(True)
        st["@__gmpz_%s_ui" % n] = rem_ui(False)

    def q_ui(how):
        def h(ex, S, a):
            x = G(S, a[1])
            g.put(S, a[0], g.divexact(x, ui(a[2]), how))
            return at_w(g.mod(x, ui(a[2])), 64)
        return h
    st["@__gmpz_fdiv_q_ui"] = q_ui("floor")
    st["@__gmpz_tdiv_q_ui"] = q_ui("trunc")
    st["@__gmpz_tdiv_ui"] = lambda ex, S, a: at_w(nonneg_mod(g, G(S, a[0]), ui(a[1])), 64)

    @fn("ui_pow_ui")
    def _(ex, S, a):
        if a[1].__class__ is not int or a[2].__class__ is not int:
            if a[1].__class__ is int and a[1] == 2 and tm.umax(a[2]) <= 4096:
                raise EngineError("symbolic power of two")
            raise EngineError("symbolic power")
        if a[2] > 100000:
            raise EngineError("huge power")
        g.put(S, a[0], a[1] ** a[2])

    @fn("setbit")
    def _(ex, S, a):
        x = G(S, a[0])
        if not num(x) or rng(x)[0] < 0:
            raise EngineError("setbit")
        k = known(a[1])
        if x.__class__ is int:
            x |= 1 << k
        else:
            w = max(x.w, k + 1)
            t = at_w(x, w)
            x = mk(tm.cat([(tm.ext(t, 0, k), k), (1, 1), (tm.ext(t, k + 1, w - k - 1), w - k - 1)]) if 0 < k < w - 1 else
                   tm.cat([(tm.ext(t, 0, k), k), (1, 1)]) if k else tm.cat([(1, 1), (tm.ext(t, 1, w - 1), w - 1)]), w, 0, MASK2(w))
        g.put(S, a[0], x)

    @fn("tstbit")
    def _(ex, S, a):
        x = G(S, a[0])
        k = known(a[1])
        if not num(x):
            raise EngineError("tstbit")
        return tm.zext(tm.ext(at_w(x, k + 1), k, 1), 1, 32)

    @fn("powm", "powm_sec")
    def _(ex, S, a):
        g.put(S, a[0], g.powm(G(S, a[1]), G(S, a[2]), G(S, a[3])))

    @fn("powm_ui")
    def _(ex, S, a):
        g.put(S, a[0], g.powm(G(S, a[1]), ui(a[2]), G(S, a[3])))

    @fn("invert")
    def _(ex, S, a):
        g.put(S, a[0], g.invert(G(S, a[1]), G(S, a[2])))
        return 1

    def cmpf(get, ab=False):
        def h(ex, S, a):
            x = G(S, a[0])
            y = get(S, a[1])
            if ab:
                for z in (x, y):
                    if num(z) and rng(z)[0] < 0:
                        raise EngineError("comparison of absolute values")
            return g.cmp(x, y)
        return h
    st["@__gmpz_cmp"] = cmpf(G)
    st["@__gmpz_cmp_ui"] = cmpf(lambda S, v: ui(v))
    st["@__gmpz_cmp_si"] = cmpf(lambda S, v: si(v))
    st["@__gmpz_cmpabs"] = cmpf(G, True)
    st["@__gmpz_cmpabs_ui"] = cmpf(lambda S, v: ui(v), True)

    @fn("congruent_2exp_p")
    def _(ex, S, a):
        m = 1 << known(a[2])
        return tm.ite(tm.eq(g.cmp(g.mod(G(S, a[0]), m), g.mod(G(S, a[1]), m)), 0, 32), 1, 0, 32)

    @fn("congruent_ui_p")
    def _(ex, S, a):
        m = ui(a[2])
        return tm.ite(tm.eq(g.cmp(g.mod(G(S, a[0]), m), g.mod(ui(a[1]), m)), 0, 32), 1, 0, 32)

    @fn("congruent_p")
    def _(ex, S, a):
        m = G(S, a[2])
        return tm.ite(tm.eq(g.cmp(g.mod(G(S, a[0]), m), g.mod(G(S, a[1]), m)), 0, 32), 1, 0, 32)

    @fn("divisible_2exp_p")
    def _(ex, S, a):
        return tm.ite(tm.eq(g.cmp(g.mod(G(S, a[0]), 1 << known(a[1])), 0), 0, 32), 1, 0, 32)

    @fn("divisible_ui_p")
    def _(ex, S, a):
        return tm.ite(tm.eq(g.cmp(g.mod(G(S, a[0]), ui(a[1])), 0), 0, 32), 1, 0, 32)

    @fn("divisible_p")
    def _(ex, S, a):
        return tm.ite(tm.eq(g.cmp(g.mod(G(S, a[0]), G(S, a[1])), 0), 0, 32), 1, 0, 32)

    @fn("get_ui")
    def _(ex, S, a):
        return g_low(g, G(S, a[0]))

    @fn("sizeinbase")
    def _(ex, S, a):
        x = G(S, a[0])
        if a[1] != 2 or not num(x) or rng(x)[0] < 0:
            raise EngineError("sizeinbase")
        if x.__class__ is int:
            return max(1, x.bit_length())
        r = 1
        for k in range(1, x.w):
            r = tm.ite(tm.ext(x.t, k, 1), k + 1, r, 64)
        return r

    @fn("export")
    def _(ex, S, a):
        dst, cnt, order, size, endian, nails, src = a
        x = G(S, src)
        if not num(x) or rng(x)[0] < 0 or nails != 0 or dst == 0:
            raise EngineError("export")
        order, endian = sx32(order), sx32(endian)
        if x.__class__ is int:
            x = BV(x, max(8, x.bit_length() + 7), x, x)
        nw = -(-x.w // (8 * size))
        t = tm.zext(x.t, x.w, nw * size * 8) if x.t.__class__ is T else x.t
        W = nw * size * 8
        used = []
        for n in range(nw + 1):
            # exactly n words are needed
            c = 1
            if n < nw:
                c = tm.eq(tm.ext(t, n * size * 8, W - n * size * 8), 0, W - n * size * 8)
            if n:
                hi = tm.ext(t, (n - 1) * size * 8, size * 8)
                c = tm.and_([c, tm.not_(tm.eq(hi, 0, size * 8), 1)], 1)
            if ex.feasible(S, c):
                used.append((n, c))
        if not used:
            raise PathEnd()
        if cnt != 0:
            r = used[-1][0]
            for n, c in used[:-1]:
                r = tm.ite(c, n, r, 64)
            S.store(cnt, 8, r)
        o = S.obj(dst, "write")
        if dst.off.__class__ is not int:
            raise EngineError("export to a symbolic address")
        for n, c in list(used):
            if n and (dst.off < 0 or dst.off + n * size > len(o.b)):
                F = S.fork()
                F.pc = F.pc + (c,) if c.__class__ is T else F.pc
                try:
                    F.bad("out-of-bounds", "write of %d bytes at offset %d of %s (size %d)" % (n * size, dst.off, o.name, len(o.b)))
                except PathEnd:
                    pass
                used.remove((n, c))
                if not used:
                    raise PathEnd()
                nc = tm.not_(c, 1)
                if nc.__class__ is T:
                    S.pc = S.pc + (nc,)
        top = used[-1][0]
        for pos in range(top * size):
            k, j = divmod(pos, size)
            r = None
            for n, c in used:
                if n * size <= pos:
                    v = S.load(symex.ptradd(dst, pos), 1)
                else:
                    wd = n - 1 - k if order == 1 else k
                    v = tm.ext(t, wd * size * 8 + 8 * (size - 1 - j if endian == 1 else j), 8)
                r = v if r is None else tm.ite(c, v, r, 8)
            S.store(symex.ptradd(dst, pos), 1, r)
        return dst

    @fn("import")
    def _(ex, S, a):
        rop, cnt, order, size, endian, nails, src = a
        if cnt.__class__ is not int or nails != 0:
            raise EngineError("import")
        order, endian = sx32(order), sx32(endian)
        parts = []
        for k in range(cnt):
            pos = (cnt - 1 - k if order == 1 else k) * size
            for j in range(size):
                parts.append((S.load(symex.ptradd(src, pos + (size - 1 - j if endian == 1 else j)), 1), 8))
        if not parts:
            g.put(S, rop, 0)
            return
        w = 8 * len(parts)
        t = tm.cat(parts)
        g.put(S, rop, mk(t, w, 0, MASK2(w)))

    @fn("urandomm")
    def _(ex, S, a):
        n = G(S, a[2])
        tr = len([1 for e in S.trace if e[0] == "m"])
        S.trace = S.trace + (("m", 0),)
        if g.oracle:
            if tr >= g.limit:
                raise PathEnd()
            if n.__class__ is not BV and n.__class__ is not int:
                raise EngineError("random value below an unknown bound")
            hi = rng(n)[1] - 1
            v = g.var("rnd", max(1, hi.bit_length()))
            g.bound[v] = n
            g.put(S, a[0], BV(v, v.w, 0, hi))
            return
        if tr < len(g.draws):
            d = g.draws[tr]
        else:
            raise EngineError("more random numbers than planned")
        k = g.which(n)
        if d.__class__ is int or k == "N":
            g.put(S, a[0], d)
            return
        if n.__class__ is int:
            hi = n - 1
            v = g.var("rnd", max(1, hi.bit_length()))
            c = tm.ult(v, n, v.w) if n < 1 << v.w else 1
            if c.__class__ is T:
                S.pc = S.pc + (c,)
            g.put(S, a[0], BV(v, v.w, 0, hi))
            return
        raise EngineError("random value below an unknown bound")

    @fn("urandomb", "rrandomb")
    def _(ex, S, a):
        n = a[2]
        if n.__class__ is not int:
            raise EngineError("symbolic bit count")
        tr = len([1 for e in S.trace if e[0] == "b"])
        S.trace = S.trace + (("b", 0),)
        if tr >= g.limit + 2:
            raise PathEnd()
        if n == 0:
            g.put(S, a[0], 0)
            return
        v = g.var("rndb", n)
        g.put(S, a[0], BV(v, n, 0, MASK2(n)))

    def answer(S, x):
        """the primality test's answer about a value (the same for equal terms)"""
        if x.__class__ is int:
            return 1 if is_prime(x) else 0
        k = (x.t, x.w)
        if k not in g.facts:
            g.facts[k] = (g.var("prime", 1), x)
        return g.facts[k][0]

    @fn("probab_prime_p")
    def _(ex, S, a):
        x = G(S, a[0])
        if not num(x):
            raise EngineError("primality of a unit")
        if x.__class__ is int:
            return 2 if is_prime(x) else 0
        if not g.oracle:
            raise EngineError("primality test")
        tr = len([1 for e in S.trace if e[0] == "t"])
        if tr >= 2 * g.limit + 2:
            raise PathEnd()
        S.trace = S.trace + (("t", 0),)
        v = answer(S, x)
        return tm.ite(v, tm.ite(g.var("sure", 1), 2, 1, 32), 0, 32) if v.__class__ is T else 2 * v

    @fn("nextprime")
    def _(ex, S, a):
        x = G(S, a[1])
        if not g.oracle:
            raise EngineError("nextprime")
        if not num(x):
            raise EngineError("nextprime of a unit")
        tr = len([1 for e in S.trace if e[0] == "n"])
        if tr >= g.limit:
            raise PathEnd()
        S.trace = S.trace + (("n", 0),)
        w = at(x) + 1
        v = g.var("next", w)
        r = BV(v, w, 2, MASK2(w))
        S.pc = S.pc + (answer(S, r), tm.ult(at_w(x, w), v, w))
        g.put(S, a[0], r)

    @fn("jacobi", "kronecker", "legendre")
    def _(ex, S, a):
        x, n = G(S, a[0]), G(S, a[1])
        if x.__class__ is int and n.__class__ is int:
            return jacobi(x, n) & MASK[32]
        if x.__class__ is int and x == 0:
            return 0
        if not g.oracle or not num(x) or not num(n):
            raise EngineError("residue symbol")
        return symbol(g, x, n)

    for n in ("__gmp_randinit_mt", "__gmp_randinit_default", "__gmp_randinit_lc_2exp_size", "__gmp_randseed", "__gmp_randseed_ui", "__gmp_randclear"):
        st["@" + n] = lambda ex, S, a: 0

    def pr(ex, S, a):
        return 0
    for n in ("__gmp_printf", "__gmp_fprintf"):
        st["@" + n] = pr
    ex.stubs.update(st)
    ex.vload = lambda S, v, n: low_limb(g, v.v, v.off, n)
    ex.vmerge = g.ite


def symbol(g, x, n):
    f = g.factors(n)
    if f:
        # multiplicative in the modulus
        r = 1
        for m in f:
            s = symbol(g, x, m)
            if s.__class__ is int and s == 0:
                return 0
            r = s if r.__class__ is int and r == 1 else tm.mul(r, s, 32)
        return r
    kx = x.t if x.__class__ is BV else x
    kn = n.t if n.__class__ is BV else n
    k = (kx, kn)
    if k not in g.legs:
        g.legs[k] = (g.var("leg", 2), x, n)
    v = g.legs[k][0]
    return tm.ite(tm.eq(v, 1, 2), 1, tm.ite(tm.ext(v, 1, 1), MASK[32], 0, 32), 32)


def g_low(g, x):
    if num(x):
        if rng(x)[0] < 0:
            x = g.ite(tm.ext(x.t, x.w - 1, 1), g.neg(x), x) if x.__class__ is BV else -x
        return at_w(x, 64)
    raise EngineError("limb of an abstract value")


def low_limb(g, x, off, n):
    if not num(x) or rng(x)[0] < 0 or off < 0:
        raise EngineError("limb of an abstract value")
    w = 8 * (off + n)
    return tm.ext(at_w(x, w), 8 * off, 8 * n)

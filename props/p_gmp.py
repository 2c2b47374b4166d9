"""Joye-Libert encryption (C24, C25, C26) and labeled homomorphic encryption (C27, C28)."""
import random
import numpy as np
import time
from build import Config
import build
import check
import equiv
import symex
import terms as tm
from terms import T
import gmpdom as gd
import hc128
from gmpdom import At, BV, El, Gmp, num
from props import Prop

JD = "AsymmetricCryptography/Joye_libert"
JL = Config("jl", JD, "plain", "jl.cpp", libs=["-lgmp"])
LH = Config("lhe", [JD, "AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE", "StreamCiphers/HC-128"], "plain", "lhe.cpp", libs=["-lgmp"])
SZ = 64

_keys = {}


def make_key(K, seed=0):
    """a key whose primes have about K + 24 and 40 bits"""
    if (K, seed) in _keys:
        return _keys[K, seed]
    r = random.Random(K * 1000 + seed)
    while True:
        p = (r.getrandbits(22) | 1 << 21) << K | 1
        if gd.is_prime(p):
            break
    while True:
        q = r.getrandbits(38) | 1 << 37 | 3
        if gd.is_prime(q) and q != p:
            break
    while True:
        y = r.randrange(2, p * q)
        if gd.jacobi(y, p) == gd.jacobi(y, q) == -1:
            break
    _keys[K, seed] = dict(p=p, q=q, N=p * q, y=y)
    return _keys[K, seed]


TOYS = {1: ((7, 3), (19, 7)), 2: ((5, 3), (13, 3), (13, 7)), 3: ((41, 3), (41, 7)), 4: ((17, 3), (113, 3)), 5: ((97, 3),)}


def toy_key(K, n=0, y=0):
    p, q = TOYS[K][n]
    N = p * q
    ys = [v for v in range(1, N) if gd.jacobi(v, p) == gd.jacobi(v, q) == -1]
    return dict(p=p, q=q, N=N, y=ys[y % len(ys)], ys=ys)


def enc_z(v):
    b = abs(v).to_bytes(SZ - 1, "little")
    return bytes([1 if v < 0 else 0]) + b


def dec_z(b):
    if b[0] == 9:
        return None
    v = int.from_bytes(b[1:], "little")
    return -v if b[0] else v


class Z:
    """arithmetic modulo 2^K on terms or integers"""
    __slots__ = ("t", "K")

    def __init__(self, t, K):
        self.t, self.K = t, K

    def o(self, b):
        return b.t if b.__class__ is Z else b & gd.MASK2(self.K)

    def __add__(self, b):
        return Z(tm.add(self.t, self.o(b), self.K), self.K)

    def __sub__(self, b):
        return Z(tm.sub(self.t, self.o(b), self.K), self.K)

    def __mul__(self, b):
        return Z(tm.mul(self.t, self.o(b), self.K), self.K)


class GTask:
    """one operation on abstract integers.

    ins: {index: name} K-bit inputs; consts: {index: bits} inputs of another width; draws: number of random units drawn
    (0 entries in zeros come first); want: {index: f(values by name) -> Z}, checked modulo nothing: the result must be that
    number in [0, 2^K); mode 'el' (arbitrary key and randomness, known by class) or a toy key"""

    def __init__(self, cfg, op, K, ins, want, nz, mode="el", draws=1, zeros=0, widths=None, cost=1.0, cipher=None, eldraw=None,
                 check=None, hc=b"", ysym=False, nlabel=None, elin=None, key=0, ks=None):
        self.cfg, self.op, self.K, self.ins, self.want, self.nz = cfg, op, K, ins, want, nz
        self.mode, self.draws, self.zeros = mode, draws, zeros
        self.widths = widths or {}
        self.cost = cost
        self.cipher = cipher           # indices holding ciphertexts: reduced, in [0, N)
        self.hc = hc
        self.ysym = ysym
        self.check = check
        self.elin = elin or {}         # inputs that are ciphertexts of any class
        self.keyno = key
        self.ks = ks
        self.label = "%s %s k=%d %s" % (cfg.key, op, K, "every key (classes)" if mode == "el" else "key p=%d q=%d %s" % (
            TOYS[K][key] + ("every y" if ysym else "y=%d" % toy_key(K, key)["y"],)))
        if zeros:
            self.label += ", %d zero draws" % zeros

    def setup(self):
        pass

    # ------------------------------------------------------------ symbolic
    def run(self):
        R = check.Result(self.label)
        O = check.OPTS
        ex = check.engine(self.cfg)
        D = equiv.Decider(seed=O.seed, deadline=time.time() + O.task_s * 0.8, final_ms=O.final_ms)
        check.reset_engine(ex, D)
        tm.WORDS[0] = False
        self.setup()
        K = self.K
        el = self.mode == "el"
        key = None if el else toy_key(K, self.keyno)
        g = Gmp(K, key, el)
        S = ex.base.fork()
        pre = []
        g.draws = [0] * self.zeros
        for i in range(self.draws):
            v = tm.var("x.%d" % i, K if el else key["N"].bit_length())
            if el:
                g.draws.append(El(v, "N", False, True))
            else:
                g.draws.append(self.unit(v, key, pre))
        gd.install(ex, g)
        if self.ks:
            self.ks(self, ex, S)
        z = S.new(16 * self.nz, "arg", "values")
        vals = {}
        for i in range(self.nz):
            if i == 0:
                v = At("N") if el else key["N"]
            elif i == 1:
                v = El(1, "N", False, True) if el else key["y"]
                if self.ysym:
                    yv = tm.var("y", key["N"].bit_length())
                    pre.append(tm.lut([1 if c in key["ys"] else 0 for c in range(1 << yv.w)], yv, 1))
                    v = BV(yv, yv.w, 1, key["N"] - 1)
            elif i == 2:
                v = At("p") if el else key["p"]
            elif i in self.ins:
                w = self.widths.get(i, K)
                t = tm.var(self.ins[i], w)
                v = BV(t, w, 0, gd.MASK2(w))
                vals[self.ins[i]] = t
            elif i in self.elin:
                if el:
                    t = tm.var(self.elin[i], K)
                    v = El(t, "N", False, True)
                    vals[self.elin[i]] = t
                else:
                    t = tm.var(self.elin[i], key["N"].bit_length())
                    v = self.unit(t, key, pre)
                    vals[self.elin[i]] = tm.lut([g.dlog(c) if c < key["N"] and c % key["p"] else 0 for c in range(1 << t.w)], t, K)
            else:
                v = 0
            g.put(S, symex.Ptr(z.o, 16 * i), v, True)
        h = 0
        if self.hc:
            h = S.new(len(self.hc), "arg", "hc")
            S.mem[h.o].b[:] = list(self.hc)
        S.pc = tuple(c for c in pre if c.__class__ is T)
        try:
            outs = ex.call(S, "@vh_" + self.op, [z, K, h])
        except symex.NoMerge:
            R.inconclusive("values that cannot be merged")
            return R
        self.finish(R, D, ex, g, outs, vals, z, key)
        R.paths = len(outs)
        R.ins = ex.nins
        R.forks = ex.nforks
        R.fns = set(ex.encoded)
        R.nodes = len(tm.NODES)
        if not R.violations:
            self.validate(R, D)
        R.stats = D.st
        return R

    def unit(self, v, key, pre):
        p, q, N = key["p"], key["q"], key["N"]
        pre.append(tm.lut([1 if 0 < c < N and c % p and c % q else 0 for c in range(1 << v.w)], v, 1))
        return BV(v, v.w, 1, N - 1)

    def finish(self, R, D, ex, g, outs, vals, z, key):
        K = self.K
        if not outs and not ex.findings:
            R.inconclusive("no feasible path returns")
        for f in ex.findings:
            r, m = D.model(list(f.pc), 30000) if f.pc else ("sat", {})
            if r == "unsat":
                continue
            if r == "sat":
                self.confirm(R, m, repr(f))
            else:
                R.inconclusive("undecided: %r" % f)
        zv = {n: Z(t, K) for n, t in vals.items()}
        for S, rv in outs:
            if len(outs) > 1 and not D.feasible(S.pc):
                continue
            for i, f in self.want.items():
                got = g.get(S, symex.Ptr(z.o, 16 * i))
                w = f(zv)
                w = w.t if w.__class__ is Z else w
                self.same(R, D, g, S.pc, got, w, "value %d" % i)
            for i in self.cipher or ():
                got = g.get(S, symex.Ptr(z.o, 16 * i))
                if got.__class__ is El:
                    if got.mod == "N" and got.red:
                        R.held += 1
                    else:
                        self.confirm(R, {}, "ciphertext %d need not lie in [0, N)" % i)
                elif num(got) and key:
                    lo, hi = gd.rng(got)
                    if lo >= 0 and hi < key["N"]:
                        R.held += 1
                        continue
                    s, w = gd.bits(min(lo, 0), max(hi, key["N"]))
                    t = gd.at_w(got, w)
                    bad = tm.not_(tm.ult(t, key["N"], w), 1)
                    self.decide(R, D, list(S.pc) + [bad], "ciphertext %d outside [0, N)" % i)
                else:
                    R.inconclusive("ciphertext outside the model")
            if self.check:
                self.check(self, R, D, g, S, z, vals, key)

    def same(self, R, D, g, pc, got, want, what):
        """got (an integer) equals the K-bit number want"""
        K = self.K
        if not num(got):
            R.inconclusive("%s is outside the model" % what)
            return
        lo, hi = gd.rng(got)
        s, w = gd.bits(min(lo, 0), max(hi, gd.MASK2(K)))
        a = gd.at_w(got, w)
        m = self.sampled(D, g, pc, a, tm.zext(want, K, w), w)
        if m is not None:
            self.confirm(R, m, what)
            return
        for v, t in g.cuts:
            if t.__class__ is not T or a.__class__ is not T or v not in tm.support([a]):
                continue
            a = self.read_bits(R, D, pc, a, v, t)
        if want.__class__ is T and want.op == "v" and K > 8 and a.__class__ is T and want in tm.support([a]):
            a = self.read_bits(R, D, pc, a, want, want)
        if pc:
            pc = tuple(pc) + tuple(tm.eq(v, t, K) for v, t in g.cuts if v in tm.support(list(pc)))
        b = tm.zext(want, K, w)
        self.decide(R, D, list(pc) + [tm.not_(tm.eq(a, b, w), 1)], what)

    def read_bits(self, R, D, pc, a, v, t):
        """A number read off bit by bit from a class v: each decision of the reading is shown (by the solver, the decisions
        before it replaced by what was shown) to be a bit of v; then v stands for t."""
        K = self.K
        seen = set()
        D.sim.run([v])
        vv = [int(x) for x in D.sim.get(v)]
        forms = {}

        def form(vals, e):
            forms.setdefault(tuple(vals), e)
        for j in range(K):
            b = [x >> j & 1 for x in vv]
            form([1] + b, tm.ext(v, j, 1))
            form([1] + [1 - x for x in b], tm.not_(tm.ext(v, j, 1), 1))
            if j:
                form([K] + [x >> j << j for x in vv], tm.cat([(0, j), (tm.ext(v, j, K - j), K - j)]))
                form([0] + [x & (1 << j) - 1 for x in vv], tm.ext(v, 0, j))
        form([0] + vv, v)
        stale = 0
        while stale < 8 and a.__class__ is T:
            D.sim.run([a])
            rep = {}
            for n in tm.topo([a]):
                if n.id in seen or n.op in ("v", "ext", "cat"):
                    continue
                x = [int(y) for y in D.sim.get(n)]
                e = forms.get(tuple([n.w] + x)) if n.w in (1, K) else None
                if e is None and n.w > 1:
                    e = forms.get(tuple([0] + x))
                    if e is not None:
                        e = tm.zext(e, e.w, n.w) if e.w <= n.w else None
                if e is None or n is e or v not in tm.support([n]):
                    seen.add(n.id)
                    continue
                rep[n.id] = n, e
                break
            if not rep:
                break
            n, e = next(iter(rep.values()))
            r, m = D.model(list(pc) + [tm.not_(tm.eq(n, e, n.w), 1)], 5000)
            if r == "unsat":
                R.extra["class_readings_proved"] = R.extra.get("class_readings_proved", 0) + 1
                a = tm.substitute([a], {n.id: e})[0]
            else:
                seen.add(n.id)
                stale += 1
        if a.__class__ is not T:
            return a
        D.sim.run([a])
        for n in reversed(tm.topo([a])):
            if n.w < K or n is v or n.op == "v" or v not in tm.support([n]) or [int(x) for x in D.sim.get(n)] != vv:
                continue
            r, m = D.model(list(pc) + [tm.not_(tm.eq(n, tm.zext(v, K, n.w), n.w), 1)])
            if r == "unsat":
                R.extra["class_readings_proved"] = R.extra.get("class_readings_proved", 0) + 1
                a = tm.substitute([a], {n.id: tm.zext(v, K, n.w)})[0]
                break
        return tm.substitute([a], {v.id: t})[0]

    def sampled(self, D, g, pc, a, b, w):
        """an assignment that already tells both sides apart (what remains is for the solver)"""
        sub = {v.id: t for v, t in g.cuts}
        ne = tm.not_(tm.eq(a, b, w), 1)
        l = [c for c in list(pc) + [ne] if c.__class__ is T]
        for _ in range(len(sub)):
            l2 = [c for c in tm.substitute(l, sub) if c.__class__ is T] if sub else l
            if l2 == l:
                break
            l = l2
        if ne.__class__ is int or not l:
            return None
        D.sim.run(l)
        cols = [D.sim.get(c) for c in l]
        for k in range(D.sim.n()):
            if all(int(c[k]) for c in cols):
                return {v.x: int(D.sim.get(v)[k]) for v in tm.support(l)}
        return None

    def decide(self, R, D, q, what):
        r, m = D.model(q)
        if r == "unsat":
            R.held += 1
        elif r == "sat":
            self.confirm(R, m, what)
        else:
            R.inconclusive("undecided: " + what)

    # ------------------------------------------------------------ native
    def assignment(self, m, kno=0):
        """concrete key, inputs and draws for a model"""
        K = self.K
        el = self.mode == "el"
        key = dict(make_key(K, kno) if el else toy_key(K, self.keyno))
        N, p = key["N"], key["p"]
        if self.ysym and m.get("y") in key["ys"]:
            key["y"] = m["y"]
        rnd = random.Random(repr(sorted(m.items())) + str(kno))

        def unit(c):
            while True:
                r = rnd.randrange(1, N)
                if r % p and r % key["q"]:
                    return pow(key["y"], c, N) * pow(r, 1 << K, N) % N

        def fix(c):
            return c if c and c < N and c % p and c % key["q"] else 1
        conv = unit if el else fix
        ins = {}
        vals = {}
        for i, n in self.ins.items():
            ins[i] = m.get(n, 0) & gd.MASK2(self.widths.get(i, K))
            vals[n] = ins[i]
        G = Gmp(K, key, True)
        for i, n in self.elin.items():
            ins[i] = conv(m.get(n, 0))
            vals[n] = G.dlog(ins[i])
        dr = [0] * self.zeros + [conv(m.get("x.%d" % i, 1)) for i in range(self.draws)]
        return key, ins, vals, dr

    def native(self, m, kno=0):
        """(difference or None, save dict)"""
        key, ins, vals, dr = self.assignment(m, kno)
        zin = [key["N"], key["y"], key["p"]] + [ins.get(i, 0) for i in range(3, self.nz)]
        args = [("i", b"".join(enc_z(v) for v in zin)), ("o", SZ * self.nz), ("v", self.nz), ("v", self.K), ("i", self.hc or b"\0"),
                ("i", b"".join(enc_z(v) for v in dr)), ("v", len(dr))]
        r = build.native(self.cfg, check.WORK, [("vh_n_" + self.op, args)])[0]
        save = {"config": self.cfg.key, "entry": "vh_n_" + self.op, "k": self.K, "key": {a: str(b) for a, b in key.items() if a != "ys"},
                "inputs": {str(i): str(v) for i, v in ins.items()}, "draws": [str(d) for d in dr], "hc": self.hc.hex(),
                "args": [[k, v.hex() if k == "i" else v] for k, v in args]}
        if r.__class__ is str:
            return r, save, None
        out = [dec_z(r[1][1][SZ * i:SZ * i + SZ]) for i in range(self.nz)]
        return self.judge(key, vals, out), save, out

    def judge(self, key, vals, out):
        K = self.K
        zv = {n: Z(v, K) for n, v in vals.items()}
        for i, f in self.want.items():
            w = f(zv)
            w = w.t if w.__class__ is Z else w
            if out[i] != w:
                return "value %d is %s, expected %d" % (i, out[i], w)
        for i in self.cipher or ():
            if out[i] is None or not 0 <= out[i] < key["N"]:
                return "ciphertext %d outside [0, N)" % i
        return None

    def confirm(self, R, m, what):
        for kno in range(2):
            d, save, out = self.native(m, kno)
            if d:
                R.violation("func", "%s: native run: %s" % (what, d), save)
                return
        rnd = random.Random(7)
        for _ in range(6):       # the abstraction forgets part of the values: other values of the unknowns
            m2 = dict(m)
            for n in list(self.ins.values()) + list(self.elin.values()):
                if n not in m2:
                    m2[n] = rnd.getrandbits(self.K)
            for i in range(self.draws):
                m2["x.%d" % i] = rnd.getrandbits(self.K)
            d, save, out = self.native(m2, 0)
            if d:
                R.violation("func", "%s: native run: %s" % (what, d), save)
                return
        R.inconclusive("the counterexample of the solver does not reproduce natively (%s)" % what)

    def validate(self, R, D):
        if check.OPTS.novalidate:
            return
        rnd = random.Random(check.OPTS.seed)
        for k in range(2):
            m = {n: rnd.getrandbits(self.widths.get(i, self.K)) for i, n in self.ins.items()}
            m.update({n: rnd.getrandbits(12) for n in self.elin.values()})
            m.update({"x.%d" % i: rnd.getrandbits(8) for i in range(self.draws)})
            d, save, out = self.native(m, k)
            if d:
                R.inconclusive("the native run disagrees with what was shown: " + d)
                return
            R.validated += 1
            if not R.sample:
                R.sample = {"task": self.label, "inputs": save["inputs"], "draws": save["draws"], "results": {str(i): str(out[i]) for i in self.want}}


# ---------------------------------------------------------------- C24
def j(op, K, ins, f, mode, **kw):
    nz = 9
    return GTask(JL, op, K, ins, {5: f}, nz, mode, **kw)


def c24(tier):
    q = tier == "quick"
    m = lambda v: v["m"]
    for K in TOYS:
        for n in range(len(TOYS[K])):
            for ys in (False, True):
                if not ys or K <= (2 if q else 3):
                    yield j("trip", K, {3: "m"}, m, "toy", cipher=[4], ysym=ys, key=n, cost=K)
            yield j("dec", K, {}, lambda v: v["c"], "toy", draws=0, elin={3: "c"}, key=n, cost=K)
            if K in (2, 3):
                yield j("encip", K, {3: "m"}, m, "toy", cipher=[3], key=n, cost=K)
                yield j("trip", K, {3: "m"}, m, "toy", cipher=[4], zeros=2, key=n, cost=K)
                yield j("trip2", K, {3: "m", 6: "m0"}, m, "toy", draws=2, key=n, cost=K)
    for K in (2, 3, 8, 16, 31, 32, 33, 64, 96) if q else list(range(2, 66)) + [96, 128]:
        yield j("trip", K, {3: "m"}, m, "el", cipher=[4], cost=K)
    for K in (8, 32) if q else (2, 8, 16, 32, 48, 64):
        yield j("dec", K, {}, lambda v: v["c"], "el", draws=0, elin={3: "c"}, cost=K)
        yield j("encip", K, {3: "m"}, m, "el", cipher=[3], cost=K)
        yield j("trip", K, {3: "m"}, m, "el", cipher=[4], zeros=2, cost=K)
        yield j("trip2", K, {3: "m", 6: "m0"}, m, "el", draws=2, cost=2 * K)


# ---------------------------------------------------------------- C25
C25OPS = [
    ("add", {3: "m1", 4: "m2"}, lambda v: v["m1"] + v["m2"], 2),
    ("add3", {3: "m1", 4: "m2", 8: "m3"}, lambda v: v["m1"] + v["m2"] + v["m3"], 3),
    ("pow", {3: "m1", 4: "a"}, lambda v: v["m1"] * v["a"], 1),
    ("addpow", {3: "m1", 4: "m2", 8: "a"}, lambda v: v["m1"] + v["m2"] * v["a"], 2),
    ("sub", {3: "m1", 4: "m2"}, lambda v: v["m1"] - v["m2"], 2),
]


def c25(tier):
    q = tier == "quick"
    for op, ins, f, n in C25OPS:
        for K, t in ((1, 0), (2, 0), (2, 1), (3, 0)) + (() if q else ((1, 1), (2, 2), (4, 0), (4, 1), (5, 0))):
            if K < (3 if q else 4) or n < 2:
                yield j(op, K, ins, f, "toy", draws=n, cost=K * n * n, key=t)
        for K in (8, 32, 64, 128) if q else (2, 5, 8, 16, 31, 32, 33, 48, 64, 96, 128):
            yield j(op, K, ins, f, "el", draws=n, cost=K)


# ---------------------------------------------------------------- C26
class KTask:
    """key generation for every outcome of the random source, the primality tests and the residue symbols"""

    def __init__(self, K, keysize, limit=2, cost=1.0):
        self.cfg, self.K, self.keysize, self.limit, self.cost = JL, K, keysize, limit, cost
        self.label = "jl keygen k=%d key bits=%d, up to %d rounds per loop" % (K, keysize, limit)

    def run(self):
        R = check.Result(self.label)
        O = check.OPTS
        ex = check.engine(self.cfg)
        D = equiv.Decider(seed=O.seed, deadline=time.time() + O.task_s * 0.8, final_ms=O.final_ms)
        check.reset_engine(ex, D)
        tm.WORDS[0] = False
        K = self.K
        g = Gmp(K, None, False, oracle=True, limit=self.limit)
        gd.install(ex, g)
        S = ex.base.fork()
        z = S.new(48, "arg", "values")
        for i in range(3):
            g.put(S, symex.Ptr(z.o, 16 * i), 0, True)
        h = S.new(2, "arg", "hc")
        S.mem[h.o].b[:] = [self.keysize & 255, self.keysize >> 8]
        outs = ex.call(S, "@vh_keygen", [z, K, h])
        if not outs and not ex.findings:
            R.inconclusive("no feasible path returns")
        for f in ex.findings:
            R.inconclusive("path ends with %r" % f)
            break
        G = lambda S, i: g.get(S, symex.Ptr(z.o, 16 * i))
        seen = set()
        for S, rv in outs:
            N, y, p = G(S, 0), G(S, 1), G(S, 2)
            if not num(N) or not num(y) or not num(p):
                R.inconclusive("a result outside the model")
                break
            for name, good in self.conditions(g, N, y, p):
                if name in seen:
                    continue
                if good.__class__ is int and good:
                    R.held += 1
                    continue
                r, m = D.model(list(S.pc) + [tm.not_(good, 1)])
                if r == "unsat":
                    R.held += 1
                elif r == "sat":
                    seen.add(name)
                    self.confirm(R, name)
                else:
                    R.inconclusive("undecided: " + name)
        R.paths = len(outs)
        R.ins = ex.nins
        R.forks = ex.nforks
        R.fns = set(ex.encoded)
        R.nodes = len(tm.NODES)
        if not R.violations and not O.novalidate and K <= 16:
            for k in range(2):
                d, save = self.native(O.seed * 1000 + k)
                if d:
                    R.inconclusive("the native run disagrees with what was shown: " + d)
                    break
                R.validated += 1
                R.sample = R.sample or {"task": self.label, "results": save["results"]}
        R.stats = D.st
        return R

    def conditions(self, g, N, y, p):
        K = self.K
        teq = lambda a, b: self.eqv(a, b)
        prime = lambda v: tm.or_n([tm.and_([teq(x, v), a], 1) for a, x in g.facts.values()] + ([1] if v.__class__ is int and gd.is_prime(v) else []))
        leg = lambda v, n: tm.or_n([tm.and_([teq(x, v), teq(m, n), tm.ext(a, 1, 1)], 1) for a, x, m in g.legs.values()])
        m1 = g.mod(p, 1 << K)
        yield "p = 1 modulo 2^k", teq(m1, 1)
        yield "p passed the primality test", prime(p)
        yield "(p-1)/2^k passed the primality test", prime(g.divexact(p, 1 << K, "floor"))
        yield "y is a non-residue modulo p", leg(y, p)
        # some tested prime q: N = p q, q = 3 modulo 4, y a non-residue modulo q
        alts = []
        for a, x in g.facts.values():
            e = teq(g.mul(p, x), N)
            if e.__class__ is int and not e:
                continue
            alts.append((e, tm.and_([e, a, teq(g.mod(x, 4), 3)], 1), leg(y, x)))
        same = [t for t in alts if t[0].__class__ is int]
        use = same or alts
        yield "N = p q with q = 3 modulo 4 that passed the primality test", tm.or_n([c for e, c, l in use])
        yield "y is a non-residue modulo q", tm.or_n([tm.and_([c, l], 1) for e, c, l in use])
        b = g.bound.get(y.t) if y.__class__ is BV else None
        if b is not None and teq(b, N).__class__ is int and teq(b, N):
            yield "0 <= y < N", 1
        else:
            lo, hi = min(gd.rng(y)[0], 0), max(gd.rng(y)[1], gd.rng(N)[1])
            s, w = gd.bits(lo, hi)
            yield "0 <= y < N", tm.and_([tm.ult(gd.at_w(y, w), gd.at_w(N, w), w), 1 if lo >= 0 else tm.not_(tm.slt(gd.at_w(y, w), 0, w), 1)], 1)

    def eqv(self, a, b):
        if a.__class__ is int and b.__class__ is int:
            return int(a == b)
        lo, hi = min(gd.rng(a)[0], gd.rng(b)[0]), max(gd.rng(a)[1], gd.rng(b)[1])
        if gd.rng(a)[0] > gd.rng(b)[1] or gd.rng(b)[0] > gd.rng(a)[1]:
            return 0
        s, w = gd.bits(lo, hi)
        return tm.eq(gd.at_w(a, w), gd.at_w(b, w), w)

    def call(self, seed, K, bits):
        rnd = random.Random(seed)
        dr = [rnd.getrandbits(8 * SZ - 16) for _ in range(40)]
        args = [("i", bytes(3 * SZ)), ("o", 3 * SZ), ("v", 3), ("v", K), ("i", bytes([bits & 255, bits >> 8])),
                ("i", b"".join(enc_z(v) for v in dr)), ("v", len(dr))]
        save = {"config": self.cfg.key, "entry": "vh_n_keygen", "k": K, "keysize": bits, "draws": [str(d) for d in dr],
                "args": [[k, v.hex() if k == "i" else v] for k, v in args]}
        return args, save

    def native(self, seed, K=None, bits=None):
        K = K or min(self.K, 8)
        args, save = self.call(seed, K, bits or 2 * K + 32)
        return self.verdict(K, build.native(self.cfg, check.WORK, [("vh_n_keygen", args)], timeout=20)[0], save)

    def verdict(self, K, r, save):
        if r.__class__ is str:
            return r, save
        N, y, p = [dec_z(r[1][1][SZ * i:SZ * i + SZ]) for i in range(3)]
        save["results"] = {"N": str(N), "y": str(y), "p": str(p)}
        return self.judge(K, N, y, p), save

    @staticmethod
    def judge(K, N, y, p):
        if None in (N, y, p):
            return "a result is too large"
        if p < 2 or not gd.is_prime(p):
            return "p = %d is not prime" % p
        if p % (1 << K) != 1:
            return "p = %d is not 1 modulo 2^%d" % (p, K)
        if not gd.is_prime(p >> K):
            return "(p-1)/2^%d = %d is not prime" % (K, p >> K)
        if N % p or N == 0:
            return "N = %d is not a multiple of p = %d" % (N, p)
        q = N // p
        if not gd.is_prime(q):
            return "q = %d is not prime" % q
        if q % 4 != 3:
            return "q = %d is not 3 modulo 4" % q
        if not 0 <= y < N:
            return "y = %d outside [0, N), N = %d" % (y, N)
        if gd.jacobi(y, p) != -1 or gd.jacobi(y, q) != -1:
            return "y = %d is not a non-residue modulo p = %d and q = %d" % (y, p, q)
        return None

    def confirm(self, R, what):
        for b in range(40):       # small keys first: what the solver assumes about a random number is frequent there
            l = []
            for k in range(25):
                K = 1 + (b + k) % 3 if b < 24 else 2 + k % 7
                l.append((K,) + self.call(b * 100 + k, K, (8, 10, 12, 14)[b % 4] if b < 24 else (24, 32, 48, 40)[k % 4]))
            rs = build.native(self.cfg, check.WORK, [("vh_n_keygen", a) for K, a, save in l], timeout=20)
            if rs == ["timeout"] * len(rs):
                continue
            for (K, a, save), r in zip(l, rs):
                d, save = self.verdict(K, r, save)
                if d:
                    R.violation("func", "%s: native run: %s" % (what, d), save)
                    return
        R.inconclusive("the counterexample of the solver does not reproduce natively (%s)" % what)


def c26(tier):
    q = tier == "quick"
    for K, b in ((1, 16), (2, 24), (3, 33), (8, 64), (16, 96), (32, 128), (32, 256)) + (() if q else ((64, 512), (32, 1024), (32, 2048), (128, 4096))):
        yield KTask(K, b, 2 if q else 3, cost=b)
    if q:
        yield KTask(32, 2048, 1, cost=2000)


# ---------------------------------------------------------------- C27
HCK = [bytes(range(0x21, 0x41)), bytes((37 * i + 11) & 255 for i in range(32))]


def stream(hc, n):
    return hc128.HC128(list(hc[:16]), list(hc[16:])).packet([0] * n)


def label_bytes(L, K):
    """the label's significant bytes, most significant first, followed by zeros up to the message width"""
    n = K // 8
    by = [tm.ext(L, 8 * i, 8) for i in range(n)]          # least significant first
    out = [0] * n
    cnt = 0                                               # significant bytes so far, from the top
    cond = []
    for k in range(n, 0, -1):
        # exactly k bytes
        c = tm.not_(tm.eq(by[k - 1], 0, 8), 1)
        for j in range(k, n):
            c = tm.and_([c, tm.eq(by[j], 0, 8)], 1)
        for i in range(k):
            out[i] = tm.ite(c, by[k - 1 - i], out[i], 8)
    return out


def mask_of(L, K, ks):
    """the mask: label bytes XOR keystream, read as 32-bit words, most significant word first"""
    b = [tm.xor([x, y], 8) for x, y in zip(label_bytes(L, K), ks)]
    v = []
    for w in reversed(range(K // 32)):
        v += [(b[4 * w + j], 8) for j in range(4)]
    return tm.cat(v)


class LTask(GTask):
    """labeled encryption; the keystream is that of a fixed key (the real cipher runs) or arbitrary (the cipher's contract,
    property C08, stands for its calls)"""

    def __init__(self, op, K, ins, nz, free=False, n=1, hc=0, **kw):
        self.free = free
        self.n = n
        ln = K // 8
        GTask.__init__(self, LH, op, K, ins, None, nz, hc=HCK[hc], draws=n, ks=free_stream if free else None, **kw)
        if free:
            self.label += ", every keystream"
        if not free:
            self.setks(stream(self.hc, n * ln))

    def setks(self, ks):
        K, ln = self.K, self.K // 8
        mk = lambda v, name, i: Z(mask_of(v[name].t, K, ks[i * ln:i * ln + ln]), K)
        if self.op == "enc":
            self.want = {3: lambda v: v["m"], 8: lambda v: mk(v, "label", 0), 11: lambda v: v["m"] - mk(v, "label", 0), 13: lambda v: mk(v, "label", 0)}
            self.cipher = [12]
        else:
            self.want = {3: lambda v: v["m"], 13: lambda v: v["m2"], 9: lambda v: mk(v, "label", 0), 10: lambda v: mk(v, "label2", 1)}

    def setup(self):
        if self.free:
            self.setks([tm.var("ks.%d" % i, 8) for i in range(self.n * self.K // 8)])

    def assignment(self, m, kno=0):
        if self.free:
            # a label whose bytes make the real keystream lead to the same mask
            ln = self.K // 8
            real = stream(self.hc, self.n * ln)
            m = dict(m)
            for i, nm in enumerate(("label", "label2")[:self.n]):
                arr = bytes(b ^ m.get("ks.%d" % (i * ln + k), 0) ^ real[i * ln + k] for k, b in enumerate(label_bytes(m.get(nm, 0), self.K)))
                if arr[0] and kno == 0:
                    m[nm] = int.from_bytes(arr, "big")
        return GTask.assignment(self, m, kno)

    def judge(self, key, vals, out):
        if self.free:
            self.setks(stream(self.hc, self.n * self.K // 8))
        return GTask.judge(self, key, vals, out)


def free_stream(task, ex, S):
    names = [f for f in ex.m.funcs if "hc128_process_packet" in f]
    ini = [f for f in ex.m.funcs if "hc128_initialize" in f]
    if len(names) != 1:
        raise symex.EngineError("stream cipher interface")

    def packet(ex, S, a):
        n = a[3]
        if n.__class__ is not int:
            raise symex.EngineError("symbolic length")
        pos = sum(e[1] for e in S.trace if e[0] == "ks")
        if pos + n > task.n * task.K // 8:
            raise symex.EngineError("more keystream than expected")
        for k in range(n):
            S.store(symex.ptradd(a[1], k), 1, tm.xor([S.load(symex.ptradd(a[2], k), 1), tm.var("ks.%d" % (pos + k), 8)], 8))
        S.trace = S.trace + (("ks", n),)
    ex.stubs[names[0]] = packet
    for f in ini:
        ex.stubs[f] = lambda ex, S, a: 0


def c27(tier):
    q = tier == "quick"
    for K in (32, 64, 96) if q else (32, 64, 96, 128):
        for free in (False, True):
            for hc in range(1 if q or free else 2):
                yield LTask("enc", K, {4: "m", 7: "label"}, 14, free, hc=hc, cost=K)
                yield LTask("enc2", K, {4: "m", 5: "m2", 7: "label", 8: "label2"}, 14, free, 2, hc=hc, cost=2 * K)


# ---------------------------------------------------------------- C28
def h(op, K, ins, f, mode, **kw):
    return GTask(LH, op, K, ins, {3: f}, 14, mode, **kw)


M = {4: "m1", 5: "m2", 6: "m3", 7: "b1", 8: "b2", 9: "b3", 10: "a"}
C28OPS = [      # operation, inputs, function of the messages, units drawn
    ("dec1", (4, 7), lambda v: v["m1"], 1),
    ("add", (4, 5, 7, 8), lambda v: v["m1"] + v["m2"], 2),
    ("add3", (4, 5, 6, 7, 8, 9), lambda v: v["m1"] + v["m2"] + v["m3"], 3),
    ("sub", (4, 5, 7, 8), lambda v: v["m1"] - v["m2"], 2),
    ("cmult", (4, 7, 10), lambda v: v["m1"] * v["a"], 1),
    ("lin", (4, 5, 6, 7, 8, 9, 10), lambda v: (v["m1"] - v["m2"]) * v["a"] + v["m3"], 3),
    ("mult", (4, 5, 7, 8), lambda v: v["m1"] * v["m2"], 3),
    ("square", (4, 7), lambda v: v["m1"] * v["m1"], 2),
    ("mult3", (4, 5, 6, 7, 8, 9), lambda v: v["m1"] * v["m2"] * v["m3"], 7),
    ("multadd", (4, 5, 6, 7, 8, 9), lambda v: v["m1"] * v["m2"] + v["m1"] * v["m3"], 5),
    ("multsub", (4, 5, 6, 7, 8, 9), lambda v: v["m1"] * v["m2"] - v["m2"] * v["m3"], 5),
    ("tripdbladd", (4, 5, 6, 7, 8, 9), lambda v: v["m1"] * v["m2"] * v["m3"] + v["m1"] * v["m2"], 8),
    ("tripdblsub", (4, 5, 6, 7, 8, 9), lambda v: v["m1"] * v["m2"] * v["m3"] - v["m1"] * v["m2"], 8),
    ("multc", (4, 5, 7, 8, 10), lambda v: v["m1"] * v["m2"] * v["a"], 3),
    ("multlin", (4, 5, 6, 7, 8, 9, 10), lambda v: (v["m1"] + v["m2"]) * v["m3"] * v["a"], 4),
    # the result stored over an operand
    ("add_1", (4, 5, 7, 8), lambda v: v["m1"] + v["m2"], 2),
    ("add_2", (4, 5, 7, 8), lambda v: v["m1"] + v["m2"], 2),
    ("add_12", (4, 7), lambda v: v["m1"] + v["m1"], 1),
    ("sub_1", (4, 5, 7, 8), lambda v: v["m1"] - v["m2"], 2),
    ("sub_2", (4, 5, 7, 8), lambda v: v["m1"] - v["m2"], 2),
    ("cmult_1", (4, 7, 10), lambda v: v["m1"] * v["a"], 1),
    ("multadd_1", (4, 5, 6, 7, 8, 9), lambda v: v["m1"] * v["m2"] + v["m1"] * v["m3"], 5),
    ("multsub_1", (4, 5, 6, 7, 8, 9), lambda v: v["m1"] * v["m2"] - v["m2"] * v["m3"], 5),
    ("multsub_2", (4, 5, 6, 7, 8, 9), lambda v: v["m1"] * v["m2"] - v["m2"] * v["m3"], 5),
    ("multc_1", (4, 5, 7, 8, 10), lambda v: v["m1"] * v["m2"] * v["a"], 3),
]


def c28(tier):
    q = tier == "quick"
    for op, ix, f, n in C28OPS:
        ins = {i: M[i] for i in ix}
        for K, t in ((1, 0), (2, 0), (2, 1), (3, 0)) + (() if q else ((1, 1), (2, 2), (4, 0))):
            if K > 1 and t and n > 3 or K > 2 and n > 2:
                continue
            yield h(op, K, ins, f, "toy", draws=n, cost=K * n * n, key=t)
        for K in (3, 8, 32, 64, 96) if q else (2, 3, 4, 5, 8, 16, 32, 48, 64, 96, 128):
            yield h(op, K, ins, f, "el", draws=n, cost=K)


PROPS = {"C24": Prop(c24), "C25": Prop(c25), "C26": Prop(c26), "C27": Prop(c27, [hc128.selftest]), "C28": Prop(c28)}

"""Deciding that symbolic terms agree for every input: simulation to propose, z3 to decide.

`Decider.equal(pairs, pc)` is a word-level SAT-sweeping loop.  Internal equivalences are proposed by simulation
signatures and merged only when z3 shows the local disequality unsatisfiable (over a cut of the cone: unsatisfiable with the
cut points free implies unsatisfiable); the outputs are decided by a final z3 query.  A model is returned as values of
the primary inputs."""
import random
import time
import numpy as np
import z3
import terms as tm
from terms import T, MASK

U64 = np.uint64


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.merged = 0
        self.memo = 0
        self.nodes = 0
        self.final = 0
        self.identical = 0
        self.lemmas = 0

    def add(self, o):
        for k, v in o.__dict__.items():
            setattr(self, k, getattr(self, k) + v)


# ======================================================================================= simulation
class Sim:
    """values of terms on a batch of input samples"""

    def __init__(self, k=64, seed=1):
        self.k = k
        self.rng = random.Random(seed)
        self.val = {}
        self.fixed = []            # extra samples (dict name -> int), appended as columns
        self.base = k

    def n(self):
        return self.base + len(self.fixed)

    def add_sample(self, m):
        self.fixed.append(m)
        self.val = {}

    def var_values(self, t):
        r = random.Random(hash_name(t.x) ^ self.rng_seed())
        w = t.w
        m = MASK[w] if w < 300 else (1 << w) - 1
        out = []
        for i in range(self.base):
            if i == 0:
                v = 0
            elif i == 1:
                v = m
            elif i % 8 == 2:
                v = r.getrandbits(w) & r.getrandbits(w) & r.getrandbits(w)
            elif i % 8 == 3:
                v = r.getrandbits(w) | r.getrandbits(w) | r.getrandbits(w)
            elif i % 8 == 4:
                v = r.choice((0, m, 1, m >> 1, 1 << (w - 1), r.getrandbits(w)))
            else:
                v = r.getrandbits(w)
            out.append(v & m)
        for d in self.fixed:
            out.append(d.get(t.x, r.getrandbits(w)) & m)
        return out

    def rng_seed(self):
        return 0x5bd1e995

    def arr(self, l, w):
        if w <= 64:
            return np.array(l, dtype=U64)
        a = np.empty(len(l), dtype=object)
        a[:] = l
        return a

    def const(self, c, w):
        return U64(c) if w <= 64 else c

    def get(self, v, w=None):
        if v.__class__ is int:
            return self.const(v, w or 64)
        if v.id not in self.val:
            self.run([v])
        return self.val[v.id]

    def run(self, roots):
        val = self.val
        old = np.seterr(over="ignore")
        for t in tm.topo([r for r in roots if r.__class__ is T and r.id not in val]):
            if t.id not in val:
                val[t.id] = self.ev(t)
        np.seterr(**old)

    def ev(self, t):
        op, w = t.op, t.w
        if op == "v":
            return self.arr(self.var_values(t), w)
        big = w > 64 or any(p.__class__ is T and p.w > 64 for p in t.a)
        if big:
            return self.ev_big(t)
        val = self.val
        m = U64(MASK[w])
        a = [val[p.id] if p.__class__ is T else U64(p & MASK[64]) for p in t.a]
        if op == "cat":
            r = None
            s = 0
            for p, pw in zip(a, t.x):
                q = p << U64(s) if s else p
                r = q if r is None else r | q
                s += pw
            return r
        if op == "ext":
            return (a[0] >> U64(t.x)) & m
        if op == "xor":
            r = a[0]
            for p in a[1:]:
                r = r ^ p
            return r ^ U64(t.x) if t.x else r
        if op == "and":
            r = a[0]
            for p in a[1:]:
                r = r & p
            return r
        if op == "add":
            r = None
            for c, p in zip(t.x[0], a):
                q = p if c == 1 else p * U64(c)
                r = q if r is None else r + q
            if t.x[1]:
                r = r + U64(t.x[1])
            return r & m if w < 64 else r
        if op == "mul":
            r = a[0] * a[1]
            return r & m if w < 64 else r
        if op == "ite":
            return np.where(a[0] != 0, a[1], a[2])
        if op == "eq":
            return (a[0] == a[1]).astype(U64)
        if op == "ult":
            return (a[0] < a[1]).astype(U64)
        if op == "lut":
            return self.tab(t)[a[0]]
        if op == "sel":
            idx = a[0].astype(np.int64)
            n = self.n()
            r = np.empty(n, dtype=U64)
            ents = a[1:]
            for i in range(n):
                e = ents[idx[i]]
                r[i] = e if e.__class__ is U64 else e[i]
            return r
        return self.ev_big(t)

    def tab(self, t):
        k = ("t", t.x)
        r = self.val.get(k)
        if r is None:
            r = self.val[k] = np.array(t.x, dtype=U64)
        return r

    def ev_big(self, t):
        n = self.n()
        val = self.val
        cols = []
        for p in t.a:
            if p.__class__ is int:
                cols.append([p] * n)
            else:
                cols.append([int(x) for x in val[p.id]])
        out = []
        for i in range(n):
            out.append(ev1(t, [c[i] for c in cols]))
        return self.arr(out, t.w)


_hn = {}


def hash_name(s):
    r = _hn.get(s)
    if r is None:
        import zlib
        r = _hn[s] = zlib.crc32(s.encode()) * 2654435761
    return r


def ev1(t, a):
    """one concrete evaluation"""
    op, w = t.op, t.w
    m = (1 << w) - 1
    if op == "cat":
        r = s = 0
        for p, pw in zip(a, t.x):
            r |= p << s
            s += pw
        return r
    if op == "ext":
        return (a[0] >> t.x) & m
    if op == "xor":
        r = t.x or 0
        for p in a:
            r ^= p
        return r
    if op == "and":
        r = m
        for p in a:
            r &= p
        return r
    if op == "add":
        return (sum(c * p for c, p in zip(t.x[0], a)) + t.x[1]) & m
    if op == "mul":
        return a[0] * a[1] & m
    if op == "ite":
        return a[1] if a[0] else a[2]
    if op == "eq":
        return int(a[0] == a[1])
    if op == "ult":
        return int(a[0] < a[1])
    if op == "lut":
        return t.x[a[0]]
    if op == "sel":
        return a[1 + a[0]]
    if op in ("shl", "lshr", "ashr"):
        if a[1] >= w:
            return 0 if op != "ashr" or not a[0] >> (w - 1) else m
        if op == "shl":
            return (a[0] << a[1]) & m
        if op == "lshr":
            return a[0] >> a[1]
        return ((a[0] - (1 << w) if a[0] >> (w - 1) else a[0]) >> a[1]) & m
    sg = lambda v: v - (1 << w) if v >> (w - 1) else v
    if op == "udiv":
        return a[0] // a[1] if a[1] else m
    if op == "urem":
        return a[0] % a[1] if a[1] else a[0]
    if op == "sdiv":
        x, y = sg(a[0]), sg(a[1])
        if y == 0:
            return 1 if x < 0 else m
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & m
    if op == "srem":
        x, y = sg(a[0]), sg(a[1])
        if y == 0:
            return a[0]
        q = abs(x) % abs(y)
        return (-q if x < 0 else q) & m
    raise AssertionError(op)


def evaluate(roots, inputs, default=0):
    """concrete values of terms under inputs (name -> int)"""
    val = {}
    for t in tm.topo(roots):
        if t.op == "v":
            val[t.id] = inputs.get(t.x, default) & ((1 << t.w) - 1)
        else:
            val[t.id] = ev1(t, [p if p.__class__ is int else val[p.id] for p in t.a])
    return [r if r.__class__ is int else val[r.id] for r in roots]


# ======================================================================================= z3
class Z:
    """translation of terms into z3; `cut` nodes become fresh constants"""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.vars = {}

    def const(self, v, w):
        return z3.BitVecVal(v, w)

    def leaf(self, t, bound=True):
        r = z3.BitVec("n%d" % t.id, t.w)
        self.memo[t.id] = r
        u = tm.umax(t)
        if bound and u < (1 << t.w) - 1:
            self.side.append(z3.ULE(r, z3.BitVecVal(u, t.w)))
        return r

    def tr(self, root, cut=()):
        if root.__class__ is int:
            raise AssertionError
        memo = self.memo
        st = [root]
        while st:
            t = st[-1]
            if t.id in memo:
                st.pop()
                continue
            if t.id in cut:
                self.leaf(t)
                st.pop()
                continue
            if t.op == "v":
                r = z3.BitVec(t.x, t.w)
                self.vars[t.x] = r
                memo[t.id] = r
                st.pop()
                continue
            pend = [p for p in t.a if p.__class__ is T and p.id not in memo]
            if pend:
                st.extend(pend)
                continue
            memo[t.id] = self.op(t)
            st.pop()
        return memo[root.id]

    def op(self, t):
        memo = self.memo
        op, w = t.op, t.w
        a = [memo[p.id] if p.__class__ is T else z3.BitVecVal(p, tm.argw(t, i)) for i, p in enumerate(t.a)]
        return zop(op, w, t.x, a)


def zop(op, w, x, a):
    if op == "cat":
        return z3.Concat(*reversed(a)) if len(a) > 1 else a[0]
    if op == "ext":
        return z3.Extract(x + w - 1, x, a[0])
    if op == "xor":
        r = a[0]
        for p in a[1:]:
            r = r ^ p
        return r ^ z3.BitVecVal(x, w) if x else r
    if op == "and":
        r = a[0]
        for p in a[1:]:
            r = r & p
        return r
    if op == "add":
        r = None
        for c, p in zip(x[0], a):
            q = p if c == 1 else p * z3.BitVecVal(c, w)
            r = q if r is None else r + q
        return r + z3.BitVecVal(x[1], w) if x[1] else r
    if op == "mul":
        return a[0] * a[1]
    if op == "ite":
        return z3.If(a[0] == z3.BitVecVal(1, 1), a[1], a[2])
    one, zero = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)
    if op == "eq":
        return z3.If(a[0] == a[1], one, zero)
    if op == "ult":
        return z3.If(z3.ULT(a[0], a[1]), one, zero)
    if op == "lut":
        return lutexpr(x, w, a[0])
    if op == "sel":
        return muxtree(a[1:], None, a[0])
    return {"shl": lambda p, q: p << q, "lshr": z3.LShR, "ashr": lambda p, q: p >> q, "udiv": z3.UDiv,
            "urem": z3.URem, "sdiv": lambda p, q: p / q, "srem": z3.SRem}[op](a[0], a[1])


_TPL = {}


def lutexpr(x, w, idx):
    k = (x, w)
    r = _TPL.get(k)
    if r is None:
        if len(_TPL) > 3000:
            _TPL.clear()
        ph = z3.BitVec("idx!%d" % idx.size(), idx.size())
        r = _TPL[k] = (muxtree([z3.BitVecVal(e, w) for e in x], list(x), ph), ph)
    return z3.substitute(r[0], (r[1], idx))


def muxtree(ents, keys, idx):
    n = idx.size()
    lvl = ents
    ks = keys if keys is not None else [e.get_id() for e in ents]
    one = z3.BitVecVal(1, 1)
    memo = {}
    uid = [0]
    for b in range(n):
        c = z3.Extract(b, b, idx) == one
        nl, nk = [], []
        memo = {}
        for i in range(0, len(lvl), 2):
            if ks[i] == ks[i + 1]:
                nl.append(lvl[i])
                nk.append(ks[i])
                continue
            k = (ks[i], ks[i + 1])
            r = memo.get(k)
            if r is None:
                uid[0] += 1
                r = memo[k] = (z3.If(c, lvl[i + 1], lvl[i]), ("m", b, uid[0]))
            nl.append(r[0])
            nk.append(r[1])
        lvl, ks = nl, nk
    return lvl[0]


# ======================================================================================= the decision procedure
QMEMO = {}         # verdicts of local queries by canonical structure (shared by all tasks of a process)


class Decider:
    LEVELS = (2, 4, 8)

    def __init__(self, seed=1, local_ms=1500, final_ms=60000, k=64, deadline=None):
        self.st = Stats()
        self.local_ms = local_ms
        self.final_ms = final_ms
        self.sim = Sim(k, seed)
        self.qmemo = QMEMO
        self.seed = seed
        self.deadline = deadline

    # ------------------------------------------------------------ raw solving
    def check(self, fs, ms):
        t0 = time.time()
        s = z3.SolverFor("QF_BV")
        s.set("timeout", int(ms))
        s.add(*fs)
        r = str(s.check())
        self.st.time += time.time() - t0
        self.st.queries += 1
        setattr(self.st, r, getattr(self.st, r) + 1)
        return r, s

    # ------------------------------------------------------------ feasibility and satisfiability of conditions
    def feasible(self, conds):
        """False only if z3 shows the conjunction unsatisfiable (possibly over a cut)"""
        conds = [c for c in conds if c.__class__ is T]
        if not conds:
            return True
        # simulation first
        self.sim.run(conds)
        acc = None
        for c in conds:
            v = self.sim.val[c.id] != 0
            acc = v if acc is None else acc & v
        if acc.any():
            return True
        if free_equalities(conds):
            return True
        for lev in (3, 8, None):
            if weight(conds, cutset(conds, lev) if lev else ()) > (2500, 600, 1500)[0 if lev == 3 else 1 if lev else 2]:
                break
            r, m = self._sat(conds, lev, 500 if lev else 3000)
            if r == "unsat":
                return False
            if r == "unknown":
                break
            if r == "sat" and lev is None:
                self.sim.add_sample(m)
                return True
        return True

    def sat(self, conds):
        conds = [c for c in conds if not (c.__class__ is int and c)]
        if any(c.__class__ is int for c in conds):
            return "unsat"
        if not conds:
            return "sat"
        self.sim.run(conds)
        acc = None
        for c in conds:
            v = self.sim.val[c.id] != 0
            acc = v if acc is None else acc & v
        if acc.any():
            return "sat"
        r = "unknown"
        for lev in (3, None):
            r, m = self._sat(conds, lev, 2000 if lev else 20000)
            if r == "unsat":
                return r
        return r

    def model(self, conds, ms=None):
        conds = [c for c in conds if not (c.__class__ is int and c)]
        if any(c.__class__ is int for c in conds):
            return "unsat", None
        return self._sat(conds, None, ms or self.final_ms)

    def _sat(self, conds, lev, ms):
        cut = cutset(conds, lev) if lev else ()
        z = Z()
        fs = [z.tr(c, cut) == z3.BitVecVal(1, 1) for c in conds]
        r, s = self.check(z.side + fs, ms)
        if r == "sat":
            md = s.model()
            return r, {n: md.eval(v, model_completion=True).as_long() for n, v in z.vars.items()}
        return r, None

    # ------------------------------------------------------------ local equality of two nodes over a cut
    def local_equal(self, a, b):
        """True / False (real inputs differ; sample added) / None"""
        last = None
        wlim = 4000 if (a if a.__class__ is T else b).w > 1 else 600
        sg = self.sim.get(a if a.__class__ is T else b)
        flat = bool((sg == sg[0]).all())       # agreeing on samples means little here: only cheap attempts
        for strat in ("lin", "mix", "any", "shared") if flat else ("lin", "mix", "any", "rot", "strong", "shared", "near", "deep", "full"):
            cut, size, prim = localcut(a, b, strat)
            if cut is None or cut == last or weight([a, b], cut) > (300 if flat else wlim):
                continue
            last = cut
            key = canon([a, b], cut)
            r = self.qmemo.get(key)
            if r is not None:
                self.st.memo += 1
            else:
                z = Z()
                fa = z.tr(a, cut) if a.__class__ is T else z3.BitVecVal(a, b.w)
                fb = z.tr(b, cut) if b.__class__ is T else z3.BitVecVal(b, a.w)
                r, s = self.check(z.side + [fa != fb], 300 if flat else self.local_ms)
                if r == "sat" and prim:      # the cut reaches the primary inputs: a real difference
                    md = s.model()
                    self.sim.add_sample({n: md.eval(v, model_completion=True).as_long() for n, v in z.vars.items()})
                    return False
                self.qmemo[key] = r
            if r == "unsat":
                return True
            if prim:
                return None
        return None

    # ------------------------------------------------------------ main entry
    def equal(self, pairs, pc=(), tag=""):
        """('equal', None) / ('differ', inputs) / ('unknown', detail) for all pairs under the path condition"""
        pairs = [(a, b) for a, b in pairs]
        pc = [c for c in pc if not (c.__class__ is int and c)]
        todo = []
        for a, b in pairs:
            if a is b or (a.__class__ is int and b.__class__ is int and a == b):
                self.st.identical += 1
                continue
            todo.append((a, b))
        z = Z()
        idn = [z.leaf(a, False) != z.leaf(b, False) for a, b in pairs if a is b and a.__class__ is T]
        if idn:
            r, _ = self.check([z3.Or(*idn)], self.final_ms)
            self.st.final += 1
            if r != "unsat":
                raise AssertionError("identical terms differ")
        if not todo:
            return "equal", None
        if self.sim_diff(todo, pc) is None:
            cut, size, prim = groupcut([a for a, b in todo], [b for a, b in todo], "shared")
            if cut is not None and weight([x for p in todo for x in p], cut) < 6000:
                w = tm.or_n([tm.not_(tm.eq(a, b, (a if a.__class__ is T else b).w), 1) for a, b in todo])
                if w.__class__ is int:
                    if not w:
                        return "equal", None
                else:
                    z = Z()
                    r, _ = self.check([z.tr(w, cut) == z3.BitVecVal(1, 1)] + z.side, 3000)
                    self.st.final += 1
                    if r == "unsat":
                        return "equal", None
        for rounds in range(40):
            m = self.sim_diff(todo, pc)
            if m is not None:
                if self.st.sat or True:
                    return "differ", m
            reps = self.sweep(todo)
            if reps is None:
                continue                       # a new sample split a class: look again
            rest = []
            for a, b in todo:
                ra = reps[a.id] if a.__class__ is T else a
                rb = reps[b.id] if b.__class__ is T else b
                if ra is rb or (ra.__class__ is int and ra == rb):
                    self.st.identical += 1
                    continue
                rest.append((ra, rb))
            rpc = [reps.get(c.id, c) for c in pc]
            if not rest:
                z = Z()
                return "equal", None
            w = [tm.not_(tm.eq(a, b, (a if a.__class__ is T else b).w), 1) for a, b in rest]
            conds = rpc + [tm.or_n(w)]
            r, m = self.model(conds)
            self.st.final += 1
            if r == "unsat":
                return "equal", None
            if r == "sat":
                full = evaluate([x for p in todo for x in p] + list(pc), m)
                k = 2 * len(todo)
                if any(full[2 * i] != full[2 * i + 1] for i in range(len(todo))) and all(full[k:]):
                    return "differ", m
                return "unknown", "model does not replay on the terms"
            return "unknown", "solver gave up on %d outputs" % len(rest)
        return "unknown", "too many refinements"

    def sim_diff(self, todo, pc):
        """inputs on which some pair differs and the path condition holds"""
        sim = self.sim
        for i in range(2):
            roots = [x for p in todo for x in p] + list(pc)
            sim.run(roots)
            ok = np.ones(sim.n(), dtype=bool)
            for c in pc:
                ok &= sim.get(c) != 0
            d = np.zeros(sim.n(), dtype=bool)
            for a, b in todo:
                w = (a if a.__class__ is T else b).w
                d |= np.asarray(sim.get(a, w) != sim.get(b, w), dtype=bool)
            hit = np.nonzero(ok & d)[0]
            if len(hit):
                k = int(hit[-1])
                return {t.x: int(sim.val[t.id][k]) for t in tm.support(roots)}
            if ok.any() or not pc:
                return None
            r, m = self.model(list(pc), 20000)
            if r != "sat":
                return None
            sim.add_sample(m)
        return None

    def sweep(self, todo):
        """representatives of all nodes below the pairs; None if a query produced a new sample"""
        sim = self.sim
        roots = [x for p in todo for x in p if x.__class__ is T]
        sim.run(roots)
        order = tm.topo(roots)
        self.st.nodes += len(order)
        rep = {}
        cls = {}
        # classes worth looking at: signatures that occur more than once
        cnt = {}
        sig = {}
        for t in order:
            s = (t.w, sim.val[t.id].tobytes() if t.w <= 64 else tuple(sim.val[t.id]))
            sig[t.id] = s
            cnt[s] = cnt.get(s, 0) + 1
        n0 = len(sim.fixed)
        rank = {}
        for t in order:
            ch = False
            a = []
            for p in t.a:
                if p.__class__ is T:
                    q = rep[p.id]
                    ch = ch or q is not p
                    a.append(q)
                else:
                    a.append(p)
            n = tm.rebuild(t, a) if ch else t
            s = sig[t.id]
            if n.__class__ is T and cnt[s] > 1:
                l = cls.setdefault(s, [])
                if not any(r is n for r in l):
                    hit = None
                    for r in l[:3]:
                        if r.__class__ is T and self.deadline and time.time() > self.deadline:
                            break
                        e = self.local_equal(r, n)
                        if e:
                            hit = r
                            self.st.merged += 1
                            break
                        if e is False:
                            break
                    if len(sim.fixed) > n0 + 8:
                        return None
                    if hit is not None:
                        n = hit
                    else:
                        l.append(n)
            elif n.__class__ is int and cnt[s] > 1:
                cls.setdefault(s, [])
            rep[t.id] = n
        if len(sim.fixed) > n0:
            return None
        return rep


def free_equalities(conds):
    """is every condition an (in)equality with input bits that occur nowhere else?  (then any outcome is possible)"""
    other = []
    used = {}
    st = list(conds)
    while st:
        c = st.pop()
        if c.op == "and":
            st.extend(c.a)
            continue
        if c.op == "xor" and c.w == 1 and len(c.a) == 1:
            c = c.a[0]
        if c.op != "eq":
            return False
        a, b = c.a
        for x, y in ((a, b), (b, a)):
            if x.__class__ is not T:
                continue
            v, lo = (x.a[0], x.x) if x.op == "ext" else (x, 0)
            if v.op == "v":
                m = MASK[x.w] << lo
                if used.get(v.id, 0) & m:
                    return False
                used[v.id] = used.get(v.id, 0) | m
                if y.__class__ is T:
                    other.append(y)
                break
        else:
            return False
    return not any(t.id in used for t in tm.support(other))


def cutset(roots, lev):
    """ids of the nodes `lev` levels below the roots (breadth first; a node above another node's cut stays inside)"""
    inner = {}
    fr = [r for r in roots if r.__class__ is T]
    for r in fr:
        inner[r.id] = r
    for d in range(lev):
        nx = []
        for t in fr:
            for p in t.a:
                if p.__class__ is T and p.id not in inner:
                    inner[p.id] = p
                    nx.append(p)
        fr = nx
        if not fr:
            break
    cut = set()
    for t in inner.values():
        for p in t.a:
            if p.__class__ is T and p.id not in inner:
                cut.add(p.id)
    return frozenset(cut)


def weight(roots, cut):
    """size of the cones above the cut, byte functions counted by their tables"""
    seen = set(cut)
    n = 0
    st = [r for r in roots if r.__class__ is T]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        n += 1
        if t.op == "lut":
            n += len(t.x) // 8
        st.extend(p for p in t.a if p.__class__ is T)
    return n


STRONG = {"add", "mul", "lut", "sel", "ite", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "eq", "ult"}
BUDGET = {"any": 200, "mix": 200, "rot": 400, "strong": 400, "shared": 400, "near": 400, "deep": 3000, "full": 8000}


def lincut(a, b):
    """cut for two sums (or two xors) that differ only in how they are associated: the difference is expanded newest
    node first, so that what both sides share cancels before it is opened"""
    import heapq
    if a.__class__ is not T or b.__class__ is not T:
        return None, 0, False
    op = a.op if a.op in ("add", "xor") else b.op
    if op not in ("add", "xor"):
        return None, 0, False
    mod = MASK[a.w]
    co = {}
    nd = {}
    hp = []

    def put(t, k):
        i = t.id
        if i not in nd:
            nd[i] = t
            heapq.heappush(hp, -i)
        co[i] = (co.get(i, 0) + k) & mod if op == "add" else co.get(i, 0) ^ 1
    put(a, 1)
    put(b, -1)
    inner = set()
    n = 0
    rest = 0
    while hp:
        i = -heapq.heappop(hp)
        k = co[i]
        if not k:
            continue
        t = nd[i]
        if t.op != op:
            return None, 0, False          # does not cancel
        inner.add(i)
        n += 1
        if n > 60:
            return None, n, False
        for c, p in zip(t.x[0] if op == "add" else (1,) * len(t.a), t.a):
            put(p, k * c)
    return frozenset(i for i in nd if i not in inner), n, False


def localcut(a, b, strat):
    if strat == "lin":
        return lincut(a, b)
    return groupcut((a,), (b,), strat)


def groupcut(ga, gb, strat):
    """(cut ids, cone size, does the cone end in primary inputs only)

    ids grow from arguments to parents, so taking nodes in descending id order visits a node after all its parents and the
    set of roots above it is known exactly."""
    import heapq
    mask = {}
    hp = []
    nd = {}
    for i, g in enumerate((ga, gb)):
        for r in g:
            if r.__class__ is T:
                mask[r.id] = mask.get(r.id, 0) | (1 << i)
                nd[r.id] = r
                heapq.heappush(hp, -r.id)
    roots = set(nd)
    cut = set()
    n = 0
    lim = BUDGET[strat]
    seen = set()
    depth = {r: 0 for r in roots}
    prim = True
    while hp:
        i = -heapq.heappop(hp)
        if i in seen:
            continue
        seen.add(i)
        t = nd[i]
        if t.op == "v":
            continue
        if i not in roots:
            sh = mask[i] == 3
            if strat in ("any", "mix"):
                leaf = strat == "mix" and sh or t.op in STRONG or t.op == "cat" and tm.is_rot(t)
            elif strat == "rot":
                leaf = sh and (t.op in STRONG or t.op == "cat" and tm.is_rot(t))
            elif strat == "strong":
                leaf = sh and t.op in STRONG
            elif strat == "shared":
                leaf = sh
            elif strat == "near":
                leaf = sh and t.op in STRONG and depth[i] > 4
            elif strat == "deep":
                leaf = sh and t.op in STRONG and depth[i] > 12
            else:
                leaf = False
            if leaf:
                cut.add(i)
                prim = False
                continue
        n += 1
        if n > lim:
            return None, n, False
        m = mask[i]
        d = depth[i] + 1
        for p in t.a:
            if p.__class__ is T:
                j = p.id
                nd[j] = p
                mask[j] = mask.get(j, 0) | m
                if depth.get(j, -1) < d:
                    depth[j] = d
                heapq.heappush(hp, -j)
    # a cut point that is a bitwise function of nodes of the cone is no cut point
    known = seen
    for i in sorted(cut):
        t = nd[i]
        if t.op in ("xor", "and", "cat", "ext") and all(p.__class__ is not T or p.id in known for p in t.a):
            cut.discard(i)
            n += 1
    return frozenset(cut), n, prim


def canon(roots, cut):
    """structure of the cones above the cut, with leaves numbered in order of appearance"""
    num = {}
    out = []
    st = [r for r in reversed(roots)]
    mark = []
    for r in roots:
        mark.append(-1 if r.__class__ is int else r.id)
        if r.__class__ is int:
            out.append(("k", r))
    while st:
        t = st.pop()
        if t.__class__ is int:
            continue
        if t.id in num:
            continue
        num[t.id] = len(num)
        if t.id in cut or t.op == "v":
            out.append((num[t.id], t.w, tm.umax(t)))
            continue
        out.append((num[t.id], t.op, t.w, t.x, t.a))
        st.extend(reversed(t.a))
    res = []
    for e in out:
        if len(e) == 5:
            res.append(e[:4] + tuple([(num[p.id],) if p.__class__ is T else p for p in e[4]]))
        else:
            res.append(e)
    res.append(tuple(num.get(m, -1) for m in mark))
    return tuple(res)

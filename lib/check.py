"""Runs the tasks of one property: symbolic execution of the real code, decision by z3, native replay, evidence."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "ref"))
sys.path.insert(0, os.path.join(HERE, "props"))
import build
import cert
import equiv
import ir
import symex
import terms as tm
from terms import T

WORK = None
TASKS = []
OPTS = None


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


# ======================================================================================= tasks
class Task:
    """one symbolic run of a harness entry.

    args: ('in', name, n)   n symbolic bytes, must be left unchanged
          ('io', name, n)   n symbolic bytes, changed by the call
          ('out', name, n)  n uninitialised bytes
          ('cin', name, b)  concrete bytes
          ('val', name, v)  concrete integer argument
    ref(I) gets the bytes of all in/io/cin buffers by name and returns {buffer name or 'ret': bytes/value (None: any)}"""

    def __init__(self, cfg, entry, args, ref=None, aspects=("func",), cost=1.0, label=None, limit=None, assume=None,
                 ms=None, certify=False, words=False, rel=(), soft=False):
        self.rel = list(rel)       # pairs of buffers that must end up equal
        self.soft = soft           # a counterexample may start from a state no history reaches: it is no violation by itself
        self.cfg, self.entry, self.args, self.ref = cfg, entry, args, ref
        self.aspects = tuple(aspects)
        self.cost = cost
        self.limit = limit
        self.assume = assume
        self.ms = ms
        self.certify = certify
        self.words = words         # symbolic input as 32-bit variables
        self.label = label or "%s %s(%s)" % (cfg.key, entry, ", ".join("%s=%s" % (a[1], a[2]) for a in args if a[0] == "val") or
                                             ", ".join("%s[%s]" % (a[1], a[2] if a[0] != "cin" else len(a[2])) for a in args))

    # ------------------------------------------------------------ engine run
    def symbolic(self, ex, D):
        S = ex.base.fork()
        ptr = {}
        I = {}
        al = []
        for kind, name, v in self.args:
            if kind == "val":
                al.append(v)
                continue
            n = len(v) if kind == "cin" else v
            p = S.new(n, "arg", name)
            b = S.mem[p.o].b
            if kind == "cin":
                b[:] = list(v)
                I[name] = list(v)
            elif kind != "out":
                vs = [tm.ext(tm.var("%s.%d" % (name, k - k % 4), 32), 8 * (k % 4), 8) if self.words and k - k % 4 + 4 <= n else
                      tm.var("%s.%d" % (name, k), 8) for k in range(n)]
                b[:] = [(x, 0) if x.op == "v" else (x.a[0], x.x // 8) for x in vs]
                I[name] = vs
            ptr[name] = p
            al.append(p)
        pre = []
        if self.assume:
            pre = [c for c in self.assume(I) if not (c.__class__ is int and c)]
            S.pc = tuple(pre)
        outs = ex.call(S, "@" + self.entry, al)
        return I, ptr, outs

    def cells(self, S, p, n):
        o = S.mem[p.o]
        return [S.read_cells(o, k, 1) for k in range(n)]

    def inb(self, m, name, n):
        """bytes of an input buffer under a model"""
        if not self.words:
            return [m.get("%s.%d" % (name, k), 0) & 255 for k in range(n)]
        return [(m.get("%s.%d" % (name, k - k % 4), 0) >> (8 * (k % 4))) & 255 if k - k % 4 + 4 <= n else
                m.get("%s.%d" % (name, k), 0) & 255 for k in range(n)]

    def concrete_args(self, m):
        """native arguments under a model (name -> value of 'buf.k' variables)"""
        l = []
        for kind, name, v in self.args:
            if kind == "val":
                l.append(("v", v))
            elif kind == "out":
                l.append(("o", v))
            elif kind == "cin":
                l.append(("i", bytes(v)))
            else:
                l.append(("i", bytes(self.inb(m, name, v))))
        return l

    def expected(self, m):
        I = {}
        for kind, name, v in self.args:
            if kind == "cin":
                I[name] = list(v)
            elif kind in ("in", "io"):
                I[name] = self.inb(m, name, v)
        return self.ref(I)

    def nat_diff(self, res, m, aspects):
        """how a native result differs from what the property says, or None"""
        if res.__class__ is str:
            return res
        ret, bufs = res
        names = [a for a in self.args if a[0] != "val"]
        if self.ref and "func" in aspects:
            e = self.expected(m)
            if "ret" in e and e["ret"] is not None and ret != e["ret"]:
                return "returns %d, expected %d" % (ret, e["ret"])
            for (kind, name, v), b in zip(names, bufs):
                w = e.get(name)
                if w is None:
                    continue
                for k, x in enumerate(w):
                    if x is not None and b[k] != x:
                        return "%s differs at byte %d: got %s, expected %s" % (
                            name, k, b.hex()[:160], "".join("??" if y is None else "%02x" % y for y in w)[:160])
        if self.rel and "func" in aspects:
            d = {a[1]: b for a, b in zip(names, bufs)}
            for x, y in self.rel:
                if d[x] != d[y]:
                    k = next(k for k in range(len(d[x])) if d[x][k] != d[y][k])
                    return "%s and %s differ at byte %d: %s / %s" % (x, y, k, d[x].hex()[:160], d[y].hex()[:160])
        if "inputs" in aspects:
            for (kind, name, v), b in zip(names, bufs):
                if kind in ("in", "cin"):
                    w = bytes(v) if kind == "cin" else bytes(self.inb(m, name, v))
                    if b != w:
                        return "input %s was changed: %s -> %s" % (name, w.hex()[:120], b.hex()[:120])
        return None

    def replay(self, m, aspects, mem=False):
        """native confirmation of a counterexample: description or None"""
        args = self.concrete_args(m)
        rs = []
        for fill in (0xA5, 0x00, 0x5A):
            r = build.native(self.cfg, WORK, [(self.entry, args)], fill=fill)[0]
            d = self.nat_diff(r, m, aspects)
            if d and not (mem and r.__class__ is not str):
                return "native run: " + d
            rs.append(r)
        if not mem and any(r != rs[0] for r in rs[1:]):
            ind = [k for k, a in enumerate(a for a in self.args if a[0] != "val") if a[0] != "out"]
            if [r[0] for r in rs].count(rs[0][0]) != len(rs) or any(r[1][k] != rs[0][1][k] for r in rs for k in ind):
                return "native run: result depends on uninitialised memory"
        for san in ("asan", "msan"):
            try:
                r = build.native(self.cfg, WORK, [(self.entry, args)], san=san)[0]
            except build.BuildError as e:
                continue
            if r.__class__ is str and r != "timeout":
                return "native run (%s): %s" % (san, r)
        return None

    # ------------------------------------------------------------ whole task
    def run(self):
        R = Result(self.label)
        cfg = self.cfg
        ex = engine(cfg)
        D = equiv.Decider(seed=OPTS.seed, deadline=time.time() + OPTS.task_s * 0.8, final_ms=(self.ms or OPTS.final_ms))
        reset_engine(ex, D)
        tm.WORDS[0] = self.words
        if self.limit:
            ex.limit = self.limit
        C = cert.start() if self.certify else None
        try:
            I, ptr, outs = self.symbolic(ex, D)
            E = self.ref(I) if self.ref and "func" in self.aspects else None
        finally:
            if C:
                cert.stop()
        R.paths = len(outs)
        R.ins = ex.nins
        R.forks = ex.nforks
        R.fns = set(ex.encoded)
        R.bounds = self.label
        done = []
        if C:
            bad = C.discharge(D)
            if bad:
                R.inconclusive("normaliser lemma not proved: " + bad)
        if "func" in self.aspects and not outs and not ex.findings:
            R.inconclusive("no feasible path returns")
        for S2, rv in outs:
            if "func" in self.aspects and (E is not None or self.rel):
                pairs = []
                size = {a[1]: a[2] if a[0] != "cin" else len(a[2]) for a in self.args if a[0] != "val"}
                for x, y in self.rel:
                    pairs += list(zip(self.cells(S2, ptr[x], size[x]), self.cells(S2, ptr[y], size[y])))
                E = E or {}
                if E.get("ret") is not None:
                    pairs.append((rv if rv.__class__ is int else rv, E["ret"]))
                for kind, name, v in self.args:
                    w = E.get(name)
                    if w is None or kind == "val":
                        continue
                    n = len(v) if kind == "cin" else v
                    if len(w) != n:
                        raise AssertionError("reference length %s: %d/%d" % (name, len(w), n))
                    for k, c in enumerate(self.cells(S2, ptr[name], n)):
                        if w[k] is not None:
                            pairs.append((c, w[k]))
                self.decide(R, D, pairs, S2.pc, "func")
            if "inputs" in self.aspects:
                pairs = []
                for kind, name, v in self.args:
                    if kind in ("in", "cin"):
                        n = len(v) if kind == "cin" else v
                        pairs += list(zip(self.cells(S2, ptr[name], n), I[name]))
                self.decide(R, D, pairs, S2.pc, "inputs")
                # exactly the announced bytes are written
                for kind, name, v in self.args:
                    if kind == "out" and (self.ref is None or self.ref.__class__ is not dict):
                        o = S2.mem[ptr[name].o]
                        miss = [k for k in range(v) if o.b[k] is None]
                        if miss:
                            self.short_write(R, D, S2, name, miss)
            if "mem" in self.aspects:
                for kind, name, v in self.args:
                    if kind == "out":
                        o = S2.mem[ptr[name].o]
                        for k in range(v):
                            c = o.b[k]
                            if c.__class__ is tuple and c[0].__class__ is T and tm.has_undef(c[0]):
                                t = self.cells(S2, ptr[name], v)[k]
                                q = tm.eq(t, tm.rename_undef(t), 8)
                                r, m = D.model(list(S2.pc) + [tm.not_(q, 1)])
                                if r == "sat":
                                    self.mem_violation(R, D, "output byte %d of %s depends on uninitialised memory" % (k, name), m)
                                    break
                                elif r != "unsat":
                                    R.inconclusive("uninitialised data may reach %s" % name)
                                    break
        if "mem" in self.aspects:
            for f in ex.findings:
                r, m = D.model(list(f.pc), 30000) if f.pc else ("sat", {})
                if r == "unsat":
                    continue
                if r != "sat":
                    R.inconclusive("undecided: %r" % f)
                    continue
                self.mem_violation(R, D, repr(f), m)
            for k, v in leaks(ex, outs):
                self.mem_violation(R, D, v, {})
        elif "inputs" in self.aspects:
            for f in ex.findings:
                if f.kind in ("undefined-shift", "uninitialised-branch"):
                    continue
                r, m = D.model(list(f.pc), 30000) if f.pc else ("sat", {})
                if r == "unsat":
                    continue
                if r == "sat" and (f.kind == "write-to-const" or f.detail.startswith(("write", "store"))):
                    self.mem_violation(R, D, repr(f), m, "inputs")
                else:
                    R.inconclusive("path ends with %r" % f)
        elif "func" in self.aspects and any(f.kind not in ("undefined-shift", "uninitialised-branch") for f in ex.findings):
            # a path ended in a memory error: the functional statement fails on it if the native run shows so
            for f in ex.findings:
                r, m = D.model(list(f.pc), 30000) if f.pc else ("sat", D.sim_sample(self))
                if r == "unsat":
                    continue
                d = self.replay(m or {}, self.aspects) if r == "sat" else None
                if d:
                    R.violation("func", d + " [%r]" % f, self.save(m or {}))
                else:
                    R.inconclusive("path ends with %r" % f)
                break
        R.nodes = len(tm.NODES)
        if not R.violations and outs:
            self.validate(R, D, ptr, outs)
        R.stats = D.st
        return R

    def decide(self, R, D, pairs, pc, aspect):
        r, m = D.equal(pairs, pc)
        if r == "equal":
            R.held += 1
            return
        if r == "unknown":
            R.inconclusive(m)
            return
        d = self.replay(m, (aspect,))
        if d and self.soft:
            R.inconclusive("fails from an arbitrary object state: " + d)
        elif d:
            R.violation(aspect, d, self.save(m))
        else:
            R.inconclusive("the counterexample of the solver does not reproduce natively (%s)" % aspect)

    def short_write(self, R, D, S, name, miss):
        m = {}
        args = self.concrete_args(m)
        k = [a[1] for a in self.args if a[0] != "val"].index(name)
        rs = [build.native(self.cfg, WORK, [(self.entry, args)], fill=f)[0] for f in (0xA5, 0x5A)]
        if all(r.__class__ is tuple for r in rs) and all(r[1][k][j] == f for r, f in zip(rs, (0xA5, 0x5A)) for j in miss[:1]):
            R.violation("inputs", "byte %d of the announced output %s is not written" % (miss[0], name), self.save(m))
        else:
            R.inconclusive("byte %d of %s is not written" % (miss[0], name))

    def mem_violation(self, R, D, what, m, aspect="mem"):
        d = self.replay(m, ("mem",), mem=True)
        if d:
            R.violation(aspect, "%s; %s" % (what, d), self.save(m))
        else:
            R.inconclusive("not confirmed natively: " + what)

    def save(self, m):
        return {"config": self.cfg.key, "entry": self.entry, "task": self.label,
                "args": [[k, v.hex() if k == "i" else v] for k, v in self.concrete_args(m)],
                "expected": jsonable(self.expected(m)) if self.ref else None,
                "argnames": [a[1] for a in self.args]}

    def validate(self, R, D, ptr, outs):
        """the engine's terms against native runs on sample inputs (translator validation)"""
        if len(outs) != 1 or OPTS.novalidate:
            return
        S, rv = outs[0]
        bufs = [(a[1], a[2] if a[0] != "cin" else len(a[2])) for a in self.args if a[0] != "val"]
        cells = [self.cells(S, ptr[n], k) for n, k in bufs]
        roots = [c for l in cells for c in l] + ([rv] if rv is not None else [])
        if any(tm.has_undef(c) for c in roots):
            return
        if any(len(l) and l[0] is None for l in cells):
            return
        sim = D.sim
        sim.run(list(roots) + list(S.pc))
        ks = []
        for k in (5 + OPTS.seed % 3, 1):
            if all(int(sim.get(c)[k]) for c in S.pc):
                ks.append(k)
        if not ks:
            return
        # values of the inputs in those samples
        calls = []
        for k in ks:
            m = {}
            for kind, name, v in self.args:
                if kind in ("in", "io"):
                    for j in range(v):
                        w = self.words and j - j % 4 + 4 <= v
                        if w and j % 4:
                            continue
                        x = tm.var("%s.%d" % (name, j), 32 if w else 8)
                        m[x.x] = int(sim.get(x)[k])
            calls.append((self.entry, self.concrete_args(m)))
        for k, r in zip(ks, build.native(self.cfg, WORK, calls)):
            if r.__class__ is str:
                R.inconclusive("native validation run failed: " + r)
                return
            want = [bytes(c if c.__class__ is int else int(sim.get(c)[k]) for c in l) for l in cells]
            for (n, _), w, g, l in zip(bufs, want, r[1], cells):
                if w != g:
                    R.inconclusive("engine and native run disagree on %s (engine %s native %s)" % (n, w.hex()[:64], g.hex()[:64]))
                    return
            if rv is not None and r[0] != (rv if rv.__class__ is int else int(sim.get(rv)[k])):
                R.inconclusive("engine and native run disagree on the return value")
                return
            R.validated += 1
            if not R.sample:
                R.sample = {"task": self.label, "inputs": [str(v if kk != "i" else v.hex())[:64] for kk, v in calls[0][1]],
                            "outputs": [b.hex()[:64] for b in r[1]]}


class Junk(Task):
    """the first argument is the earlier content of an object: sizeof bytes, asked from the code itself"""

    def run(self):
        ex = engine(self.cfg)
        reset_engine(ex, equiv.Decider(seed=OPTS.seed))
        (S, rv), = ex.call(ex.base.fork(), "@vh_size", [])
        self.args = [("in", self.args[0][1], int(rv))] + self.args[1:]
        return Task.run(self)


class Task2(Task):
    """the same calls on two builds: every output buffer and the return value must agree"""

    def __init__(self, cfg, cfg2, entry, args, **kw):
        Task.__init__(self, cfg, entry, args, None, **kw)
        self.cfg2 = cfg2
        self.label = cfg2.key + " = " + self.label

    def cfgs(self):
        return [self.cfg, self.cfg2]

    def replay(self, m, aspects, mem=False):
        args = self.concrete_args(m)
        for fill in (0xA5, 0x5A):
            r = [build.native(c, WORK, [(self.entry, args)], fill=fill)[0] for c in (self.cfg, self.cfg2)]
            if any(x.__class__ is str for x in r):
                return "native runs: %s: %s / %s: %s" % (self.cfg.key, r[0], self.cfg2.key, r[1])
            if r[0][0] != r[1][0]:
                return "native runs: %s returns %d, %s returns %d" % (self.cfg.key, r[0][0], self.cfg2.key, r[1][0])
            names = [a for a in self.args if a[0] != "val"]
            for (kind, name, v), a, b in zip(names, r[0][1], r[1][1]):
                if a != b:
                    return "native runs: %s differs: %s gives %s, %s gives %s" % (name, self.cfg.key, a.hex()[:120], self.cfg2.key, b.hex()[:120])
        return None

    def run(self):
        R = Result(self.label)
        D = equiv.Decider(seed=OPTS.seed, deadline=time.time() + OPTS.task_s * 0.8, final_ms=(self.ms or OPTS.final_ms))
        res = []
        for k, c in enumerate((self.cfg, self.cfg2)):
            ex = engine(c)
            reset_engine(ex, D, k == 0)
            tm.WORDS[0] = self.words
            I, ptr, outs = self.symbolic(ex, D)
            R.ins += ex.nins
            R.forks += ex.nforks
            R.fns |= {"%s: %s" % (c.key, f) for f in ex.encoded}
            res.append((ptr, outs, ex))
            if not outs:
                R.inconclusive("no feasible path returns in " + c.key)
            if any(f.kind not in ("undefined-shift", "uninitialised-branch") for f in ex.findings):
                R.inconclusive("%s: path ends with %r" % (c.key, ex.findings[0]))
        (p1, o1, e1), (p2, o2, e2) = res
        R.paths = len(o1) * len(o2)
        for S1, r1 in o1:
            for S2, r2 in o2:
                pc = tuple(S1.pc) + tuple(c for c in S2.pc if c not in S1.pc)
                if len(o1) * len(o2) > 1 and not D.feasible(pc):
                    continue
                pairs = [(r1, r2)]
                for kind, name, v in self.args:
                    if kind != "val":
                        n = len(v) if kind == "cin" else v
                        pairs += list(zip(self.cells(S1, p1[name], n), self.cells(S2, p2[name], n)))
                self.decide(R, D, pairs, pc, "func")
        R.nodes = len(tm.NODES)
        if not R.violations and len(o1) == 1:
            self.validate(R, D, p1, o1)
        R.stats = D.st
        return R


def leaks(ex, outs):
    for S, rv in outs:
        for oid, o in S.mem.items():
            if o.kind in ("new", "new[]", "malloc") and oid not in ex.base.mem and not o.name.startswith("static"):
                yield oid, "leak: %s is never released" % o.name
                return


def jsonable(e):
    return {k: ("".join("??" if b is None else "%02x" % b for b in v) if v.__class__ in (list, bytes) else v) for k, v in e.items()}


class Result:
    def __init__(self, label):
        self.label = label
        self.violations = []       # (aspect, text, replay dict)
        self.incon = []
        self.held = 0
        self.paths = self.ins = self.forks = self.nodes = self.validated = 0
        self.fns = set()
        self.stats = equiv.Stats()
        self.sample = None
        self.bounds = label
        self.wall = 0.0
        self.extra = {}

    def violation(self, aspect, text, replay):
        self.violations.append((aspect, text, replay))

    def inconclusive(self, text):
        self.incon.append(text)


_engines = {}


def engine(cfg):
    ex = _engines.get(cfg.key)
    if ex is None:
        p = build.build_ir(cfg, WORK)
        m = ir.parse(open(p).read())
        ex = _engines[cfg.key] = symex.Exec(m)
        ex.limit0 = ex.limit
    return ex


def reset_engine(ex, D, terms=True):
    if terms:
        tm.reset()
    ex.findings = []
    ex.dead = {}
    ex.tabcache = {}
    ex.feas_cache = {}
    ex.nins = ex.nforks = ex.nmerges = 0
    ex.cur = []
    ex.encoded = set()
    ex.fns = {k: f for k, f in ex.fns.items()}
    ex.called = set()
    ex.fq = D.feasible
    ex.sat = D.sat
    ex.stubs = {}
    ex.limit = ex.limit0


def worker(i):
    t = TASKS[i]
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, OPTS.task_s, 1.0)
    try:
        R = t.run()
    except Timeout:
        R = Result(t.label)
        R.inconclusive("time limit of %d s" % OPTS.task_s)
    except symex.EngineError as e:
        R = Result(t.label)
        R.inconclusive("engine: %s" % e)
    except build.BuildError as e:
        R = Result(t.label)
        R.inconclusive("build: %s" % e)
    except MemoryError:
        R = Result(t.label)
        R.inconclusive("memory limit")
    except Exception as e:
        R = Result(t.label)
        R.inconclusive("internal: " + "".join(traceback.format_exception(e))[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    R.wall = time.time() - t0
    return i, R


def build_one(a):
    cfg, nat = a
    try:
        if nat:
            build.build_native(cfg, WORK)
        else:
            build.build_ir(cfg, WORK)
        return None
    except build.BuildError as e:
        return str(e)


# ======================================================================================= known findings
def known():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                f = l[7:].split(" ", 2)
                d = dict(x.split("=", 1) for x in f[:2])
                d["text"] = f[2] if len(f) > 2 else ""
                out.append(d)
    return out


def main():
    global WORK, TASKS, OPTS
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--task-s", type=float, default=0)
    ap.add_argument("--only", default="")
    ap.add_argument("--novalidate", action="store_true")
    ap.add_argument("-v", action="store_true")
    OPTS = ap.parse_args()
    if OPTS.tier not in ("quick", "thorough"):
        OPTS.tier = "quick"
    OPTS.final_ms = 60000 if OPTS.tier == "quick" else 200000
    if not OPTS.task_s:
        OPTS.task_s = 200 if OPTS.tier == "quick" else 600
    OPTS.total_s = 600 if OPTS.tier == "quick" else 840
    t0 = time.time()
    pid = OPTS.prop
    import props
    P = props.get(pid)
    WORK = tempfile.mkdtemp(prefix="vh.")
    try:
        rc = run_prop(P, pid, t0)
    finally:
        shutil.rmtree(WORK, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run_prop(P, pid, t0):
    global TASKS
    fails = []
    TASKS = list(P.tasks(OPTS.tier))
    if OPTS.only:
        TASKS = [t for t in TASKS if OPTS.only in t.label]
    cfgs = {}
    for t in TASKS:
        for c in t.cfgs() if hasattr(t, "cfgs") else [t.cfg]:
            cfgs[c.key] = c
    ctx = mp.get_context("fork")
    results = {}
    order = sorted(range(len(TASKS)), key=lambda i: -TASKS[i].cost)
    with ctx.Pool(OPTS.jobs) as pool:
        jobs = [(c, n) for c in cfgs.values() for n in (False, True)]
        errs = [e for e in pool.imap_unordered(build_one, jobs) if e]
        if errs:
            for e in sorted(set(errs))[:3]:
                print("BUILD: " + e[-1500:])
        kat = P.selftest() if hasattr(P, "selftest") else 0
        stop = False
        it = pool.imap_unordered(worker, order)
        end = t0 + OPTS.total_s
        while len(results) < len(TASKS):
            try:
                i, R = it.next(timeout=max(1.0, end - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                pool.terminate()
                break
            results[i] = R
            if OPTS.v:
                s = R.stats
                print("%6.2fs %s: %s paths=%d ins=%d nodes=%d q=%d(memo %d, %.1fs) val=%d" % (
                    R.wall, R.label, "VIOLATION " + R.violations[0][1][:200] if R.violations else "inconclusive: " + R.incon[0] if R.incon else "held",
                    R.paths, R.ins, R.nodes, s.queries, s.memo, s.time, R.validated), flush=True)
            if R.violations and len([1 for r in results.values() if r.violations]) >= 3:
                pool.terminate()
                break
    return report(P, pid, results, kat, t0)


def report(P, pid, results, kat, t0):
    st = equiv.Stats()
    fns = set()
    for R in results.values():
        st.add(R.stats)
        fns |= R.fns
    viol = []
    incon = []
    kn = [k for k in known() if k.get("property") == pid]
    seen_known = {}
    for i, R in sorted(results.items()):
        for aspect, text, rep in R.violations:
            hit = None
            for k in kn:
                if P.known_match(k, TASKS[i], aspect, text, rep):
                    hit = k
            if hit:
                seen_known[hit["key"]] = hit
            else:
                viol.append((R.label, aspect, text, rep))
        for t in R.incon:
            incon.append((R.label, t))
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
    samples = [R.sample for R in results.values() if R.sample][:3]
    labels = [TASKS[i].label for i in sorted(results)]
    ev = {
        "property": pid, "tier": OPTS.tier, "seed": OPTS.seed, "level": "model_checking",
        "coverage": {
            "states": sum(R.paths for R in results.values()),
            "transitions": sum(R.ins for R in results.values()),
            "traces_validated_against_impl": sum(R.validated for R in results.values()),
            "samples": samples or [{"task": l} for l in labels[:3]] or ["none"],
            "states_meaning": "symbolic end states (each covers all input values of its task)",
            "transitions_meaning": "LLVM IR instructions executed symbolically",
            "tasks": len(results), "tasks_planned": len(TASKS), "tasks_held": sum(1 for R in results.values() if not R.violations and not R.incon),
            "functions_encoded": sorted(fns), "bounds": P.bounds(OPTS.tier) if hasattr(P, "bounds") else labels[:40],
            "task_list": labels[:400],
            "term_nodes": sum(R.nodes for R in results.values()),
            "solver": "z3", "queries": st.queries, "queries_unsat": st.unsat, "queries_sat": st.sat, "queries_unknown": st.unknown,
            "queries_answered_from_identical_ones": st.memo, "solver_time_s": round(st.time, 3),
            "final_queries": st.final, "internal_equivalences_proved": st.merged, "normaliser_lemmas_proved": st.lemmas,
            "outputs_identical_after_rewriting": st.identical,
            "reference_known_answer_tests": kat,
            "tasks_not_decided": len({l for l, t in incon}), "tasks_not_explored": len(TASKS) - len(results),
            "not_decided": ["%s: %s" % x for x in incon][:20],
        },
        "assumptions": P.assumptions if hasattr(P, "assumptions") else [],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    for R in results.values():
        for k, v in R.extra.items():
            c = ev["coverage"]
            c[k] = c.get(k, 0) + v if v.__class__ in (int, float) else v
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    rc = 0
    if viol:
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        for label, aspect, text, rep in viol[:5]:
            rep = dict(rep or {})
            rep.update(property=pid, aspect=aspect, what=text, task=label)
            h = hashlib.sha1(json.dumps(rep, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(d, "%s-%s.json" % (pid, h))
            with open(path, "w") as f:
                json.dump(rep, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  %s: %s" % (label, text[:1000]))
        rc = 1
    else:
        # what the solver left open is not explored: it is listed here and in the evidence, and supports no claim
        late = len(TASKS) - len(results)
        for l, t in incon[:10]:
            print("NOT-DECIDED property=%s %s: %s" % (pid, l, t))
        if late:
            print("NOT-EXPLORED property=%s %d tasks (time limit)" % (pid, late))
        if ev["coverage"]["tasks_held"] < 0.5 * len(TASKS):
            rc = 2
    print("%s %s: %d tasks, %d held, %d violations, %d inconclusive; %d queries (%.1f s solver), %d native validations, %.1f s" % (
        pid, OPTS.tier, len(results), ev["coverage"]["tasks_held"], len(viol), len(incon), st.queries, st.time,
        ev["coverage"]["traces_validated_against_impl"], time.time() - t0))
    return rc



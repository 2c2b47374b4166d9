"""C29: the authenticated-encryption example, with the received message under somebody else's control."""
import random
import time
import build
import check
import equiv
import symex
import terms as tm
from build import Config
from props import Prop
from symex import Multi, PathEnd, Ptr
from terms import T

AE = Config("ae", ["Authentication/HMAC-SHA-256", "BlockCiphers/AES/AES/AES_CFB", "StreamCiphers/HC-128", "Encoders/Hex",
                   "Example_AuthenticatedEncryption"], "plain", "ae.cpp")
NLIT, NLOG, NPT, NINF = 2048, 8192, 2048, 512
REJ = "a message whose tag was reported invalid"


class AETask:
    """target 0: nobody changes the messages, every text of the same length; target i: message i is replaced by arbitrary
    bytes after its tag was computed and the validation may report either outcome"""

    def __init__(self, target):
        self.cfg, self.target, self.cost = AE, target, 1.0
        self.label = ("example program, every pair of plaintexts of the same lengths" if not target else
                      "example program, received message %d arbitrary, either outcome of its validation" % target)

    def hooks(self, ex):
        self.taint = {}

        def sup(S, p, n):
            if n.__class__ is not int:
                raise symex.EngineError("symbolic length at a hook")
            c = S.read_cells(S.obj(p, "read"), p.off, n) if n else []
            return frozenset(v for v in tm.support([b for b in (S.load(Ptr(p.o, p.off + i), 1) for i in range(n)) if b.__class__ is T]) if v in self.taint)

        def ev(S, *e):
            S.trace = S.trace + (e,)

        def taint(ex, S, a):
            tag, t, msg, n = a
            for q in ((msg,) if tag.o == msg.o else (msg, tag)):
                o = S.wobj(q.o)
                for i in range(len(o.b)):
                    v = tm.var("%s.%d" % ("t" if q is msg else "g", i - q.off), 8)
                    self.taint[v] = i - q.off if q is msg else None
                    S.store(Ptr(q.o, i), 1, v)
            ev(S, "received")
            return 0

        def verdict(ex, S, a):
            tag, t, msg, n = a
            s = sup(S, msg, n) | sup(S, tag, t)
            if not s:
                return 2
            F = S.fork()
            ev(S, "valid", s)
            ev(F, "invalid")
            return Multi([(S, 1), (F, 0)])

        def consume(ex, S, a):
            if [e for e in S.trace if e[0] == "invalid"]:
                ev(S, "continued")
            s = sup(S, a[0], a[1])
            if s:
                ev(S, "used", s)
            return 1 if s else 0

        def step(ex, S, a):
            if [e for e in S.trace if e[0] == "invalid"]:
                ev(S, "continued")
            return 0
        ex.stubs.update({"@vh_taint": taint, "@vh_verdict": verdict, "@vh_consume": consume, "@vh_step": step, "@vh_exit": self.exit})

    def exit(self, ex, S, a):
        self.ends.append((S, a[0]))
        raise PathEnd()

    def run(self):
        R = check.Result(self.label)
        O = check.OPTS
        ex = check.engine(self.cfg)
        D = equiv.Decider(seed=O.seed, deadline=time.time() + O.task_s * 0.8, final_ms=O.final_ms)
        check.reset_engine(ex, D)
        tm.WORDS[0] = True
        self.ends = []
        self.hooks(ex)
        S = ex.base.fork()
        lits, log, pts, inf = [S.new(n, "arg", nm) for n, nm in ((NLIT, "lits"), (NLOG, "log"), (NPT, "pts"), (NINF, "info"))]
        for i in range(NLIT):
            S.store(Ptr(lits.o, i), 1, tm.var("lit.%d" % i, 8) if self.target == 0 else 97 + i % 26)
        for p, n in ((log, NLOG), (pts, NPT), (inf, NINF)):
            for i in range(n):
                S.store(Ptr(p.o, i), 1, 0)
        rets = ex.call(S, "@vh_ae", [lits, log, pts, inf, self.target, 0])
        for f in ex.findings[:1]:
            R.inconclusive("path ends with %r" % f)
        if not rets and not self.ends:
            R.inconclusive("no path ends")
        if self.target == 0:
            for S, c in self.ends:
                self.judge_stop(R, D, S)
            for S, rv in rets:
                self.honest(R, D, S, log, pts, inf)
        else:
            for S in [s for s, c in self.ends + list(rets)]:
                self.judge(R, D, S)
        R.paths = len(rets) + len(self.ends)
        R.ins, R.forks, R.nodes = ex.nins, ex.nforks, len(tm.NODES)
        R.fns = set(ex.encoded)
        if not R.violations and not O.novalidate and not R.incon:
            rnd = random.Random(O.seed)
            for k in range(2):
                l = bytes(rnd.randrange(97, 123) for _ in range(NLIT))
                d, save = self.native(l, rnd.randrange(0, 60))
                if d:
                    R.inconclusive("the native run disagrees with what was shown: " + d)
                    break
                R.validated += 1
                R.sample = R.sample or {"task": self.label, "texts": l[:80].hex(), "target": self.target}
        R.stats = D.st
        return R

    def word(self, S, p, i):
        v = S.load(Ptr(p.o, 8 * i), 8)
        if v.__class__ is not int:
            raise symex.EngineError("symbolic bookkeeping")
        return v

    def judge_stop(self, R, D, S):
        r, m = D.model(list(S.pc) or [1])
        if r == "unsat":
            return
        l = bytes((m or {}).get("lit.%d" % i, 97 + i % 26) for i in range(NLIT))
        self.confirm(R, "the program stops although nobody changed a message", [(l, 0)])

    def honest(self, R, D, S, log, pts, inf):
        nlog = self.word(S, inf, 0)
        if self.word(S, inf, 1) != 2:
            self.confirm(R, "%d of 2 validations succeed for unchanged messages" % self.word(S, inf, 1), [(bytes(97 + i % 26 for i in range(NLIT)), 0)])
            return
        L = [S.load(Ptr(log.o, i), 1) for i in range(nlog)]
        rnd = random.Random(5)
        for i in range(2):
            n, pos = self.word(S, inf, 24 + i), self.word(S, inf, 16 + i)
            P = [S.load(Ptr(pts.o, 512 * i + k), 1) for k in range(n)]
            vs = tm.support([t for t in L + P if t.__class__ is T])
            sub = {v.id: rnd.getrandbits(v.w) for v in vs}
            val = lambda l: [t if t.__class__ is int else u for t, u in zip(l, self.subst(l, sub))]
            Lv, Pv = val(L), val(P)
            at = [k for k in range(pos, nlog - n + 1) if Lv[k:k + n] == Pv]
            good, m = False, None
            for k in at:
                neq = tm.or_n([tm.not_(tm.eq(L[k + j], P[j], 8), 1) for j in range(n)])
                r, m = D.model(list(S.pc) + [neq])
                if r == "unsat":
                    good = True
                    break
            if good and n:
                R.held += 1
                continue
            l = bytes((m or {}).get("lit.%d" % q, 97 + q % 26) for q in range(NLIT))
            self.confirm(R, "plaintext %d is not printed after its tag was found valid" % (i + 1), [(l, 0), (bytes(97 + q % 26 for q in range(NLIT)), 0)])

    def subst(self, l, sub):
        r = tm.substitute([t for t in l if t.__class__ is T], sub)
        it = iter(r)
        return [t if t.__class__ is int else next(it) for t in l]

    def judge(self, R, D, S):
        """the events of one path"""
        r, m = D.model(list(S.pc) or [1])
        if r == "unsat":
            return
        tr = S.trace
        valid = frozenset().union(*[e[1] for e in tr if e[0] == "valid"])
        used = frozenset().union(*[e[1] for e in tr if e[0] == "used"])
        rej = [e for e in tr if e[0] == "invalid"]
        if rej and used:
            self.confirm(R, "the program decrypts %s" % REJ, [(None, d) for d in self.offs(used)])
        elif rej and [e for e in tr if e[0] == "continued"]:
            self.confirm(R, "the program goes on after %s" % REJ, [(None, 0)])
        elif used - valid:
            self.confirm(R, "the program decrypts bytes no valid tag covers", [(None, d) for d in self.offs(used - valid)])
        else:
            R.held += 1

    def offs(self, vs):
        l = sorted(self.taint[v] for v in vs if self.taint[v] is not None)
        return l[:2] + l[-1:]

    def native(self, lits, d):
        lits = lits or bytes(97 + i % 26 for i in range(NLIT))
        args = [("i", lits), ("o", NLOG), ("i", bytes(NPT)), ("i", bytes(NINF)), ("v", self.target), ("v", d & (1 << 64) - 1)]
        r = build.native(self.cfg, check.WORK, [("vh_ae", args)], timeout=60)[0]
        save = {"config": AE.key, "entry": "vh_ae", "target": self.target, "changed_offset": d, "texts": lits[:400].hex(),
                "args": [[k, v.hex() if k == "i" else v] for k, v in args]}
        if r.__class__ is str:
            return r, save
        rv, (l, log, pts, inf) = r
        w = lambda i: int.from_bytes(inf[8 * i:8 * i + 8], "little")
        save["printed"] = log[:w(0)].decode("latin1")
        if self.target == 0:
            if rv >= 1000:
                return "the program stops with status %d although nobody changed a message" % (rv - 1000), save
            if w(1) != 2:
                return "%d of 2 validations succeed for unchanged messages" % w(1), save
            for i in range(2):
                p = pts[512 * i:512 * i + w(24 + i)]
                if not p or p not in log[w(16 + i):w(0)]:
                    return "plaintext %d is not printed after its tag was found valid" % (i + 1), save
        else:
            if w(2):
                return "the program decrypts the changed byte (offset %d of the received message %d)" % (d, self.target), save
            if w(3):
                return "the program goes on after %s" % REJ, save
        return None, save

    def confirm(self, R, what, cands):
        for l, d in cands:
            t, save = self.native(l, d)
            if t:
                R.violation("func", "%s: native run: %s" % (what, t), save)
                return
        R.inconclusive("not reproduced natively (%s)" % what)


def c29(tier):
    for t in range(3):
        yield AETask(t)


PROPS = {
    "C29": Prop(c29, assumptions=["the validation function reports either outcome for a changed message; the ciphers and the tag are decided by their own properties",
                                  "std::string and the streams are small stand-ins with the same meaning for the operations the example uses"],
                bounds="the example program as it is, plaintexts of the lengths it uses"),
}

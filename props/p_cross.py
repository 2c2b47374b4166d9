"""Statements across the libraries: history independence (C10), memory safety (C20), inputs kept (C21), both ends in step (C22),
interchangeable builds (C23)."""
from build import Config
from check import Task, Task2, Junk
from props import Prop
import p_chacha as PC
import p_aes as PA
import p_stream as PS
import p_hash as PH
import p_misc as PM

STREAM = {
    "chacha": (PC.CFG[20], 32, 12, 64),
    "hc128": (PS.HC, 16, 16, 64), "rabbit": (PS.RB, 16, 8, 16), "sosemanuk": (PS.SO, 16, 16, 80),
}
for v in PA.VAR:
    STREAM["ctr_" + v] = (PA.CTR[v], 16, 12, 16)


# ---------------------------------------------------------------- C10
def rel(c, hist, n0, n, **kw):
    cfg, kn, vn, b = STREAM[c]
    return Task(cfg, "vh_rel", [("in", "key0", kn), ("in", "iv0", vn), ("val", "hist", hist), ("in", "in0", n0), ("out", "out0", n0), ("val", "n0", n0),
                                ("in", "key", kn), ("in", "iv", vn), ("in", "in", n), ("out", "out", n), ("out", "fresh", n), ("val", "n", n)],
                rel=[("out", "fresh")], words=c in ("hc128", "sosemanuk"), cost=5 + (2 * n0 + 2 * n) / 16, **kw)


def junk(c, n, **kw):
    cfg, kn, vn, b = STREAM[c]
    return Junk(cfg, "vh_junk", [("in", "junk", 0), ("in", "key", kn), ("in", "iv", vn), ("in", "in", n), ("out", "out", n), ("out", "fresh", n), ("val", "n", n)],
                rel=[("out", "fresh")], soft=True, words=c in ("hc128", "sosemanuk"), cost=5 + n / 16, **kw)


def reiv(c, n0, n, **kw):
    cfg, kn, vn, b = STREAM[c]
    return Task(cfg, "vh_reivrel", [("in", "key", kn), ("in", "iv0", vn), ("in", "in0", n0), ("out", "out0", n0), ("val", "n0", n0),
                                    ("in", "iv", vn), ("in", "in", n), ("out", "out", n), ("out", "fresh", n), ("val", "n", n)],
                rel=[("out", "fresh")], words=c in ("hc128", "sosemanuk"), cost=5 + (n0 + n) / 16, **kw)


def c10(tier):
    q = tier == "quick"
    for c, (cfg, kn, vn, b) in STREAM.items():
        n = b + b // 2 + 1
        hs = [(0, 0), (0, 1), (0, b - 1), (0, b), (0, b + 3), (1, 5), (1, b), (2, 7), (3, b + 1), (4, 2 * b + 1)]
        if not q:
            hs += [(h, k) for h in range(8) for k in (0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, b - 1, b, b + 1, 2 * b, 3 * b + 5)]
        for h, n0 in hs:
            yield rel(c, h, n0, n)
        for k in ((1, n, 4 * b) if q else (1, 2, 3, 4, n, 4 * b, 300)):
            yield junk(c, k)
        if c not in ("chacha", "hc128"):
            for n0 in ((0, 1, 5, b - 1, b, b + 3, 2 * b) if q else range(0, 2 * b + 20)):
                yield reiv(c, n0, n)
    if not q:
        yield rel("hc128", 0, 4100, 70)
        yield rel("hc128", 3, 2100, 70)
    for n0, n in ((0, 5), (16, 20), (3, 33), (21, 16)):
        yield Task(PS.RB, "vh_norel", [("in", "key0", 16), ("in", "iv0", 8), ("in", "in0", n0), ("out", "out0", n0), ("val", "n0", n0),
                                       ("in", "key", 16), ("in", "in", n), ("out", "out", n), ("out", "fresh", n), ("val", "n", n)], rel=[("out", "fresh")], cost=5)
    for v, cfg in list(PA.CFB.items()) + list(PA.CFBR.items()):
        for d in (0, 1, 2, 3, 4, 7):
            for n0, n in (((5, 20), (16, 33), (31, 3)) if q else [(a, b) for a in (0, 1, 5, 15, 16, 17, 31, 32, 40) for b in (1, 16, 20, 33)]):
                yield Task(cfg, "vh_rel", [("in", "key0", 16), ("in", "iv0", 16), ("val", "dir", d), ("in", "in0", n0), ("out", "out0", n0), ("val", "n0", n0),
                                           ("in", "key", 16), ("in", "iv", 16), ("in", "in", n), ("out", "out", n), ("out", "fresh", n), ("val", "n", n)],
                           rel=[("out", "fresh")], cost=3 + n / 8)
        for d in (0, 2):
            yield Junk(cfg, "vh_junk", [("in", "junk", 0), ("in", "key", 16), ("in", "iv", 16), ("val", "dir", d), ("in", "in", 37), ("out", "out", 37), ("out", "fresh", 37), ("val", "n", 37)],
                       rel=[("out", "fresh")], soft=True, cost=5)
    for v, cfg in PA.AG.items():
        for h in range(4):
            for n0, n in (((0, 5), (18, 17), (33, 16)) if q else [(a, b) for a in (0, 1, 15, 16, 17, 33, 64) for b in (0, 1, 16, 21)]):
                yield Task(cfg, "vh_rel", [("in", "key0", 16), ("in", "iv0", 16), ("val", "hist", h), ("in", "in0", n0), ("out", "out0", n0), ("val", "n0", n0),
                                           ("in", "key", 16), ("in", "iv", 16), ("in", "in", n), ("out", "out", n + 16), ("out", "fresh", n + 16), ("val", "n", n)],
                           rel=[("out", "fresh")], cost=8 + n / 8)
        yield Junk(cfg, "vh_junk", [("in", "junk", 0), ("in", "key", 16), ("in", "iv", 16), ("in", "in", 21), ("out", "out", 37), ("out", "fresh", 37), ("val", "n", 21)],
                   rel=[("out", "fresh")], soft=True, cost=5)
    for kn0, kn in ((32, 32), (64, 5), (5, 64), (131, 16), (20, 131), (100, 0), (0, 1)):
        for h in (0, 1):
            yield Task(PH.HM, "vh_rel", [("in", "key0", kn0), ("val", "kn0", kn0), ("val", "hist", h), ("in", "m0", 9), ("val", "n0", 9), ("in", "key", kn), ("val", "kn", kn),
                                         ("in", "msg", 21), ("val", "n", 21), ("out", "tag", 32), ("out", "fresh", 32), ("in", "tag0", 32)], rel=[("tag", "fresh")], words=True, cost=12)
        for h, n0, n in ((0, 5, 60), (1, 64, 0), (0, 119, 3)):
            yield Task(PH.HM, "vh_relmsg", [("in", "key", kn), ("val", "kn", kn), ("val", "hist", h), ("in", "m0", n0), ("val", "n0", n0),
                                            ("in", "msg", n), ("val", "n", n), ("out", "tag", 32), ("out", "fresh", 32), ("in", "tag0", 32)], rel=[("tag", "fresh")], words=True, cost=12)
    for kn in (0, 5, 63, 64, 65, 131):
        yield Junk(PH.HM, "vh_junk", [("in", "junk", 0), ("in", "key", kn), ("val", "kn", kn), ("in", "msg", 21), ("val", "n", 21), ("out", "tag", 32), ("out", "fresh", 32)],
                   rel=[("tag", "fresh")], soft=True, words=True, cost=8)
    for n0 in (0, 1, 55, 56, 63, 64, 65, 130):
        for h in (0, 1):
            for n in (0, 7, 70):
                yield Task(PH.MD, "vh_rel", [("in", "a", n0), ("val", "n0", n0), ("val", "hist", h), ("in", "c", n), ("val", "n", n), ("out", "out", 16), ("out", "fresh", 16)],
                           rel=[("out", "fresh")], words=True, cost=3)
    for n in (0, 7, 56, 64, 70):
        yield Junk(PH.MD, "vh_junk", [("in", "junk", 0), ("in", "c", n), ("val", "n", n), ("out", "out", 16), ("out", "fresh", 16)],
                   rel=[("out", "fresh")], soft=True, words=True, cost=3)
    for w in PH.SH:
        for n0, n in ((0, 5), (64, 3), (119, 56), (130, 0)):
            yield PH.sha2(w, n0, n)
    for d in range(8):
        for n0, n in (((8, 16),) if q else ((0, 8), (8, 16), (24, 8))):
            yield Task(PM.DE, "vh_rel", [("in", "key0", 8), ("val", "dir", d), ("in", "in0", n0), ("out", "out0", n0), ("val", "n0", n0), ("in", "key", 8),
                                         ("in", "in", n), ("out", "out", n), ("out", "fresh", n), ("val", "n", n)], rel=[("out", "fresh")], cost=4)
    for d in (0, 2):
        yield Junk(PM.DE, "vh_junk", [("in", "junk", 0), ("val", "dir", d), ("in", "key", 8), ("in", "in", 16), ("out", "out", 16), ("out", "fresh", 16), ("val", "n", 16)],
                   rel=[("out", "fresh")], soft=True, cost=4)
    for w in PS.SP:
        for kn0, kn in ((32, 16), (5, 32), (0, 31), (24, 0)):
            yield Task(PS.SP[w], "vh_rel", [("in", "key0", kn0), ("val", "kn0", kn0), ("in", "key", kn), ("val", "kn", kn), ("in", "in", 16), ("out", "out", 48), ("out", "fresh", 48)],
                       rel=[("out", "fresh")], words=True, cost=4)


# ---------------------------------------------------------------- C22
def ends(c, a, b, d, **kw):
    cfg, kn, vn, _ = STREAM[c]
    n = lambda nm, o, k: [("in", nm, k), ("out", o, k), ("val", "n" + nm[2:], k)]
    return Task(cfg, "vh_ends3", [("in", "key", kn), ("in", "iv", vn)] + n("in", "out", a) + n("in2", "out2", b) + n("in3", "out3", d),
                lambda I: {"out": I["in"], "out2": I["in2"], "out3": I["in3"]}, words=c in ("hc128", "sosemanuk"), cost=5 + (a + b + d) / 8, **kw)


def inrel(c, a, b, **kw):
    cfg, kn, vn, _ = STREAM[c]
    return Task(cfg, "vh_inrel", [("in", "key", kn), ("in", "iv", vn), ("in", "in", a), ("out", "buf", a), ("out", "out", a), ("val", "n", a),
                                  ("in", "in2", b), ("out", "buf2", b), ("out", "out2", b), ("val", "n2", b)],
                rel=[("out", "buf"), ("out2", "buf2")], words=c in ("hc128", "sosemanuk"), cost=5 + (a + b) / 8, **kw)


def c22(tier):
    q = tier == "quick"
    for c, (cfg, kn, vn, b) in STREAM.items():
        for n in (list(range(0, 2 * b + 2) if b < 64 else list(range(0, 20)) + [b - 1, b, b + 1, b + 15, 2 * b, 2 * b + 1]) if q else range(0, 4 * b + 10)):
            yield inrel(c, n, 5)
        L = (1, 4, b - 1, b, b + 5) if q else (0, 1, 3, 4, 5, 8, b - 1, b, b + 1, b + 5, 2 * b + 7)
        for x in L:
            for y in L[:3] if q else L:
                yield ends(c, x, y, b + 2)


# ---------------------------------------------------------------- C23
def c23(tier):
    q = tier == "quick"
    for v in PA.VAR[1:]:
        V = lambda f: Task2(f["plain"], f[v], t.entry, t.args, cost=t.cost)
        for n in (list(range(0, 34)) + [47, 63, 64, 65, 100] if q else list(range(0, 130)) + [256, 1000, 4100]):
            t = PA.ctr_packet(PA.CTR["plain"], n)
            yield V(PA.CTR)
        for s in PA.Q3:
            t = PA.ctr_three(PA.CTR["plain"], *s)
            yield V(PA.CTR)
        t = PA.ctr_reiv(PA.CTR["plain"], 19, 21)
        yield V(PA.CTR)
        for n in (list(range(0, 20)) + [31, 32, 33, 50] if q else range(0, 100)):
            for d in (0, 1):
                t = PA.cfb_one(PA.CFB["plain"], d, n)
                yield V(PA.CFB)
        for k, s in enumerate(PA.cfb_lens("quick")):
            for d in (0, 7, 2, 5) if not q or k % 4 == 0 else (0, 7):
                t = PA.cfb_seq(PA.CFB["plain"], d, *s)
                yield V(PA.CFB)
        for k, (a, n) in enumerate(PA.ag_pairs("quick") if q else [(a, n) for a in range(0, 34) for n in list(range(0, 34)) + [64]]):
            if q and v in ("x86plain", "armplain") and k % 3:
                continue
            t = PA.ag_enc(PA.AG["plain"], a, n)
            yield V(PA.AG)
            if not q or k % 2:
                t = PA.ag_dec(PA.AG["plain"], a, n)
                yield V(PA.AG)
        t = PA.ag_again(PA.AG["plain"], 17, 3, 20)
        yield V(PA.AG)


# ---------------------------------------------------------------- C20, C21
def alltasks(tier):
    """the tasks of every symmetric library"""
    q = tier == "quick"
    for mod, ids in ((PC, ("C01",)), (PA, ("C02", "C03", "C04", "C05", "C06", "C07")), (PS, ("C08", "C09", "C11", "C12")), (PH, ("C13", "C14", "C15", "C16")), (PM, ("C17", "C18", "C19"))):
        for i in ids:
            for t in mod.PROPS[i].tasks(tier):
                if t.entry == "vh_both" and t.cost > 6 and q:
                    continue                   # generation followed by validation; both are there on their own
                if q and t.cost > 100:
                    continue
                yield t
    for n in (list(range(0, 18)) + [33, 64] if q else range(0, 130)):
        yield h_dec(n)


def h_dec(n, **kw):
    return Task(PM.HX, "vh_decode", [("in", "in", 2 * n), ("out", "out", n), ("val", "n", 2 * n)], None, cost=n, **kw)


def with_aspect(tier, asp):
    seen = set()
    for t in alltasks(tier):
        k = (t.cfg.key, t.entry, t.label)
        if k in seen:
            continue
        seen.add(k)
        t.aspects = (asp,)
        yield t


def c20(tier):
    yield from with_aspect(tier, "mem")


def c21(tier):
    yield from with_aspect(tier, "inputs")
    for v in PA.VAR:
        for a, n in ((0, 0), (0, 1), (3, 16), (17, 33), (16, 5)) if tier == "quick" else PA.ag_pairs("quick"):
            yield PA.ag_tagafter(PA.AG[v], a, n)


FE = PM.FE
PROPS = {
    "C10": Prop(c10, [], [FE, PA.INS], lambda t: {"histories": "listed earlier packets (up to three, two initialisations), then initialisation and a packet; for histories of any length: arbitrary object bytes before initialisation", "keys, IVs, contents": "all values"}),
    "C20": Prop(c20, [], [FE, PA.INS], lambda t: {"lengths and histories": "those of C01..C09 and C11..C19", "contents": "all values", "buffers": "exactly the announced sizes"}),
    "C21": Prop(c21, [], [FE, PA.INS], lambda t: {"lengths and histories": "those of C01..C09 and C11..C19", "contents": "all values"}),
    "C22": Prop(c22, [], [FE, PA.INS], lambda t: {"keys, nonces, contents": "all values", "packets": "three per direction, listed lengths"}),
    "C23": Prop(c23, [], [FE, PA.INS], lambda t: {"keys, IVs, contents": "all values", "pairs of builds": "portable against each other build"}),
}

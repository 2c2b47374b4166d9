"""AES-128 (C02), counter mode (C03), cipher feedback (C04, C05) and AEGIS-128 (C06, C07) in all build variants."""
import build
import check
from build import Config
from check import Task
from props import Prop
import aes as R
import util as U
import terms as tm

B = "BlockCiphers/AES/"
VAR = ("plain", "x86plain", "armplain", "x86", "arm")
_D = {"plain": ("AES", "plain"), "x86plain": ("AES_x86", "plain"), "armplain": ("AES_ARM", "plain"), "x86": ("AES_x86", "x86"), "arm": ("AES_ARM", "arm")}
CTR, CFB, CFBR, AG, AT = {}, {}, {}, {}, {}
for v, (d, m) in _D.items():
    cfb = B + d + ("/AES_CFB" if d == "AES" else "/AES_CFB_Carry-Over")
    CTR[v] = Config("ctr_" + v, B + d + "/AES_CTR", m, "aes_ctr.cpp")
    CFB[v] = Config("cfb_" + v, cfb, m, "aes_cfb.cpp")
    AT[v] = Config("ctrat_" + v, B + d + "/AES_CTR", m, "aes_ctr_at.cpp")
    AG[v] = Config("aegis_" + v, "StreamCiphers/AEGIS/" + d.replace("AES", "AEGIS"), m, "aegis.cpp")
    if m == "plain":
        CFBR[v] = Config("cfb_r6_" + v, cfb, "rounds6", "aes_cfb.cpp")


# ---------------------------------------------------------------- C02
def schedule(cfg, **kw):
    return Task(cfg, "vh_schedule", [("in", "key", 16), ("out", "out", 176)], lambda I: {"out": R.expand(I["key"])}, cost=3, **kw)


def cfb_block(cfg, skip=0, **kw):
    return Task(cfg, "vh_block", [("in", "key", 16), ("in", "iv", 16), ("out", "out", 16)],
                lambda I: {"out": R.encrypt(I["key"], I["iv"], skip)}, cost=3, **kw)


def ctr_block(cfg, **kw):
    def ref(I):
        e = lambda: R.encrypt(I["key"], I["iv"] + [0, 0, 0, 1])
        return {"out": e(), "out2": None}
    return Task(cfg, "vh_block", [("in", "key", 16), ("in", "iv", 12), ("out", "out", 16), ("out", "out2", 16)], ref, cost=3, **kw)


def c02(tier):
    for v in VAR:
        yield schedule(CTR[v])
        yield schedule(CFB[v])
        yield cfb_block(CFB[v])
        yield ctr_block(CTR[v])
        yield cfb_one(CFB[v], 0, 16)
        yield cfb_one(CFB[v], 1, 16)
        yield ctr_packet(CTR[v], 16)
    for v in CFBR:
        yield schedule(CFBR[v])
        yield cfb_block(CFBR[v], 4)
        yield cfb_one(CFBR[v], 0, 16, 4)


# ---------------------------------------------------------------- C03
def ctr_packet(cfg, n, **kw):
    return Task(cfg, "vh_packet", [("in", "key", 16), ("in", "iv", 12), ("in", "in", n), ("out", "out", n), ("val", "n", n)],
                lambda I: {"out": R.CTR(I["key"], I["iv"]).packet(I["in"])}, cost=n / 16 + 1, **kw)


def ctr_three(cfg, a, b, c, **kw):
    def ref(I):
        x = R.CTR(I["key"], I["iv"])
        return {"out": x.packet(I["in"]), "out2": x.packet(I["in2"]), "out3": x.packet(I["in3"])}
    return Task(cfg, "vh_three", [("in", "key", 16), ("in", "iv", 12), ("in", "in", a), ("out", "out", a), ("val", "n", a),
                                  ("in", "in2", b), ("out", "out2", b), ("val", "n2", b), ("in", "in3", c), ("out", "out3", c), ("val", "n3", c)],
                ref, cost=(a + b + c) / 16 + 1, **kw)


def ctr_reiv(cfg, n0, n, **kw):
    def ref(I):
        return {"out0": R.CTR(I["key"], I["iv0"]).packet(I["in0"]), "out": R.CTR(I["key"], I["iv"]).packet(I["in"])}
    return Task(cfg, "vh_reiv", [("in", "key", 16), ("in", "iv0", 12), ("in", "in0", n0), ("out", "out0", n0), ("val", "n0", n0),
                                 ("in", "iv", 12), ("in", "in", n), ("out", "out", n), ("val", "n", n)], ref, cost=(n + n0) / 16 + 1, **kw)


def ctr_ivkey(cfg, n, n2, **kw):
    def ref(I):
        x = R.CTR(I["key"], I["iv"])
        o = x.packet(I["in"])
        return {"out": o, "out2": R.CTR(I["key2"], I["iv"], x.ctr).packet(I["in2"])}
    return Task(cfg, "vh_ivkey", [("in", "iv", 12), ("in", "key", 16), ("in", "in", n), ("out", "out", n), ("val", "n", n),
                                  ("in", "key2", 16), ("in", "in2", n2), ("out", "out2", n2), ("val", "n2", n2)], ref, cost=(n + n2) / 16 + 1, **kw)


class AtTask(Task):
    """packets from an arbitrary counter value: a counterexample counts when a history from a fresh load confirms it, or when
    patching the register is shown to give exactly the state that histories leave"""

    def replay(self, m, aspects, mem=False):
        d = Task.replay(self, m, aspects, mem)
        if not d:
            return None
        args = self.concrete_args(m)
        c = int.from_bytes(args[2][1], "big")
        if 1 <= c <= (1 << 25 if self.cfg.mode == "x86" else 1 << 22):
            r = build.native(self.cfg, check.WORK, [("vh_hist", args)], timeout=200)[0]
            d2 = self.nat_diff(r, m, aspects)
            return d2 and "after %d blocks: %s" % (c - 1, d2)
        r = build.native(self.cfg, check.WORK, [("vh_same", args[:2] + [("v", b)]) for b in (1, 2, 299)])
        return d if all(x.__class__ is tuple and x[0] == 1 for x in r) else None


def ctr_at(v, n, n2, lo=0, **kw):
    def ref(I):
        x = R.CTR(I["key"], I["iv"], U.be(I["ctr"]))
        return {"out": x.packet(I["in"]), "out2": x.packet(I["in2"])}
    # reachable counters first: the solver's example is then cheap to confirm
    asm = (lambda I: [tm.eq(I["ctr"][0], 0, 8), tm.not_(tm.eq(U.be(I["ctr"]), 0, 32), 1)]) if lo else None
    return AtTask(AT[v], "vh_at", [("in", "key", 16), ("in", "iv", 12), ("in", "ctr", 4), ("in", "in", n), ("out", "out", n), ("val", "n", n),
                                      ("in", "in2", n2), ("out", "out2", n2), ("val", "n2", n2)], ref, cost=(n + n2) / 16 + 1, assume=asm, **kw)


Q3 = [(0, 0, 1), (1, 1, 1), (5, 16, 3), (16, 0, 32), (17, 15, 20), (31, 1, 33), (48, 7, 16)]


def ctr_sizes(tier):
    return list(range(0, 50)) + [63, 64, 65, 127, 128, 129] if tier == "quick" else list(range(0, 132)) + [255, 256, 257, 1023, 1024]


def c03(tier):
    for v in VAR:
        for n in ctr_sizes(tier):
            yield ctr_packet(CTR[v], n)
        for s in (Q3 if tier == "quick" else [(a, b, c) for a in (0, 1, 3, 15, 16, 17, 32, 35) for b in (0, 1, 4, 15, 16, 17, 31) for c in (1, 16, 33)]):
            yield ctr_three(CTR[v], *s)
        yield ctr_reiv(CTR[v], 37, 21)
        yield ctr_ivkey(CTR[v], 16, 19)
        yield ctr_ivkey(CTR[v], 21, 16)
        # every counter value, and in particular those below 2^24
        for lo in (1, 0):
            yield ctr_at(v, 37, 19, lo)
            yield ctr_at(v, 64, 1, lo)
        # the counter passes its first byte carry at block 256
        yield ctr_packet(CTR[v], 16 * 256 + 5)
        if tier != "quick":
            yield ctr_packet(CTR[v], 16 * 513 + 1)


# ---------------------------------------------------------------- C04
def cfb_one(cfg, d, n, skip=0, **kw):
    return Task(cfg, "vh_one", [("in", "key", 16), ("in", "iv", 16), ("val", "dir", d), ("in", "in", n), ("out", "out", n), ("val", "n", n)],
                lambda I: {"out": R.CFB(I["key"], I["iv"], skip).packet(I["in"], d)}, cost=n / 16 + 1, **kw)


def cfb_seq(cfg, d, a, b, c, skip=0, **kw):
    def ref(I):
        x = R.CFB(I["key"], I["iv"], skip)
        return {"out": x.packet(I["in"], d & 1), "out2": x.packet(I["in2"], d >> 1 & 1), "out3": x.packet(I["in3"], d >> 2)}
    return Task(cfg, "vh_seq", [("in", "key", 16), ("in", "iv", 16), ("val", "dir", d), ("in", "in", a), ("out", "out", a), ("val", "n", a),
                                ("in", "in2", b), ("out", "out2", b), ("val", "n2", b), ("in", "in3", c), ("out", "out3", c), ("val", "n3", c)],
                ref, cost=(a + b + c) / 16 + 1, **kw)


def cfb_lens(tier):
    if tier == "quick":
        return [(a, 16, 1) for a in range(1, 16)] + [(a, 16 - a, 17) for a in (1, 4, 7, 11, 15)] + [(3, 2, 1), (5, 5, 16), (16, 16, 16), (0, 1, 0), (33, 14, 3), (20, 3, 32), (15, 15, 15)]
    return [(a, b, c) for a in list(range(0, 18)) + [23, 32] for b in list(range(0, 18)) + [31, 33] for c in (1, 16, 18)] + [(64, 5, 80), (100, 100, 100)]


def c04(tier):
    for v in VAR:
        for n in (list(range(0, 36)) + [48, 79, 80] if tier == "quick" else list(range(0, 100)) + [128, 255, 1024]):
            for d in (0, 1):
                yield cfb_one(CFB[v], d, n)
        for k, (a, b, c) in enumerate(cfb_lens(tier)):
            for d in ((0, 7) if k % 5 or tier == "quick" and k % 2 else (0, 7, 2, 5)):
                yield cfb_seq(CFB[v], d, a, b, c)
    for v in CFBR:
        for n in (1, 7, 16, 29):
            for d in (0, 1):
                yield cfb_one(CFBR[v], d, n, 4)
        yield cfb_seq(CFBR[v], 5, 6, 20, 16, 4)


# ---------------------------------------------------------------- C05
def cfb_ends(cfg, n, n2, skip=0, **kw):
    def ref(I):
        return {"out": I["in"], "out2": I["in2"]}
    return Task(cfg, "vh_ends", [("in", "key", 16), ("in", "iv", 16), ("in", "in", n), ("val", "n", n), ("in", "in2", n2), ("val", "n2", n2),
                                 ("out", "ct", n), ("out", "ct2", n2), ("out", "out", n), ("out", "out2", n2)], ref, cost=(n + n2) / 16 + 1,
                **dict({"label": "%s sender/receiver %d+%d" % (cfg.key, n, n2)}, **kw))


def cfb_resync(cfg, l, n, n2, **kw):
    # after n >= 16 received bytes the second packet is decrypted correctly
    def ref(I):
        return {"out2": I["in2"]}
    return Task(cfg, "vh_resync", [("in", "key", 16), ("in", "iv", 16), ("in", "iv2", 16), ("in", "lost", l), ("val", "l", l), ("in", "in", n), ("val", "n", n),
                                   ("in", "in2", n2), ("val", "n2", n2), ("out", "ct", n), ("out", "out", n), ("out", "out2", n2)], ref,
                cost=(n + n2) / 16 + 1, label="%s lost %d, then %d, then %d" % (cfg.key, l, n, n2), **kw)


def cfb_corrupt(cfg, n, n2, n3, **kw):
    def ref(I):
        return {"out3": I["in3"]}
    return Task(cfg, "vh_corrupt", [("in", "key", 16), ("in", "iv", 16), ("in", "err", n), ("in", "in", n), ("val", "n", n), ("in", "in2", n2), ("val", "n2", n2),
                                    ("in", "in3", n3), ("val", "n3", n3), ("out", "out3", n3)], ref, cost=(n + n2 + n3) / 16 + 1,
                label="%s corrupted %d, then %d, then %d" % (cfg.key, n, n2, n3), **kw)


def c05(tier):
    q = tier == "quick"
    for v in VAR:
        for n, n2 in ([(a, b) for a in list(range(0, 18)) + [31, 32, 33, 45] for b in (1, 16, 19)] if q else
                      [(a, b) for a in range(0, 50) for b in list(range(1, 20)) + [33, 64]]):
            yield cfb_ends(CFB[v], n, n2)
        for l, n, n2 in ([(0, 16, 33), (7, 16, 5), (16, 32, 16), (3, 17, 18), (1, 29, 16), (20, 31, 1)] if q else
                         [(l, n, n2) for l in (0, 1, 9, 16, 21) for n in range(16, 50) for n2 in (1, 16, 35)]):
            yield cfb_resync(CFB[v], l, n, n2)
        for s in ([(16, 16, 20), (5, 16, 3), (33, 18, 17)] if q else [(a, b, c) for a in (1, 5, 15, 16, 17, 33) for b in (16, 17, 24, 31, 32, 40) for c in (1, 16, 20)]):
            yield cfb_corrupt(CFB[v], *s)
    for v in CFBR:
        yield cfb_ends(CFBR[v], 21, 18)


# ---------------------------------------------------------------- C06, C07
def ag_enc(cfg, an, n, **kw):
    def ref(I):
        ct, tag = R.aegis_encrypt(I["key"], I["iv"], I["ad"], I["pt"])
        return {"ct": ct, "tag": tag}
    return Task(cfg, "vh_enc", [("in", "key", 16), ("in", "iv", 16), ("in", "ad", an), ("val", "an", an), ("in", "pt", n), ("val", "n", n),
                                ("out", "ct", n), ("out", "tag", 16)], ref, cost=(an + n) / 16 + 4, **kw)


def ag_dec(cfg, an, n, **kw):
    def ref(I):
        pt, tag = R.aegis_decrypt(I["key"], I["iv"], I["ad"], I["ct"])
        ok = tm.and_([tm.eq(a, b, 8) for a, b in zip(tag, I["tag"])], 1)
        return {"ret": tm.zext(ok, 1, 64), "pt": [tm.ite(ok, p, 0, 8) for p in pt]}
    return Task(cfg, "vh_dec", [("in", "key", 16), ("in", "iv", 16), ("in", "ad", an), ("val", "an", an), ("in", "ct", n), ("val", "n", n),
                                ("out", "pt", n), ("io", "tag", 16)], ref, cost=(an + n) / 16 + 4, **kw)


def ag_trip(cfg, an, n, **kw):
    def ref(I):
        ok = tm.and_([tm.eq(d, 0, 8) for d in I["delta"]], 1)
        return {"ret": tm.zext(ok, 1, 64), "out": [tm.ite(ok, p, 0, 8) for p in I["pt"]]}
    return Task(cfg, "vh_trip", [("in", "key", 16), ("in", "iv", 16), ("in", "ad", an), ("val", "an", an), ("in", "pt", n), ("val", "n", n),
                                 ("out", "ct", n), ("out", "tag", 16), ("out", "out", n), ("in", "delta", 16)], ref, cost=(an + n) / 8 + 8, **kw)


def ag_again(cfg, n0, an, n, **kw):
    def ref(I):
        ct, tag = R.aegis_encrypt(I["key"], I["iv"], I["ad"], I["pt"])
        return {"ct": ct, "tag": tag}
    return Task(cfg, "vh_again", [("in", "key", 16), ("in", "iv0", 16), ("in", "pt0", n0), ("val", "n0", n0), ("out", "ct0", n0), ("in", "iv", 16),
                                  ("in", "ad", an), ("val", "an", an), ("in", "pt", n), ("val", "n", n), ("out", "ct", n), ("out", "tag", 16)],
                ref, cost=(an + n) / 16 + 8, **kw)


def ag_afterdec(cfg, n0, n, **kw):
    def ref(I):
        ct, tag = R.aegis_encrypt(I["key"], I["iv"], [], I["pt"])
        return {"ct": ct, "tag": tag}
    return Task(cfg, "vh_afterdec", [("in", "key", 16), ("in", "iv0", 16), ("in", "ct0", n0), ("val", "n0", n0), ("io", "tag0", 16), ("in", "iv", 16),
                                     ("in", "pt", n), ("val", "n", n), ("out", "ct", n), ("out", "tag", 16)], ref, cost=n / 16 + 8, **kw)


def ag_tagafter(cfg, an, n, **kw):
    return Task(cfg, "vh_tagafter", [("in", "key", 16), ("in", "iv", 16), ("in", "ad", an), ("val", "an", an), ("in", "ct", n), ("val", "n", n),
                                     ("out", "pt", n), ("io", "tag", 16), ("out", "ok", 16)], None, rel=[("tag", "ok")], cost=n / 16 + 4, **kw)


def ag_rekey(cfg, n0, n, **kw):
    def ref(I):
        ct, tag = R.aegis_encrypt(I["key"], I["iv"], [], I["pt"])
        return {"ct": ct, "tag": tag}
    return Task(cfg, "vh_rekey", [("in", "key0", 16), ("in", "iv0", 16), ("in", "pt0", n0), ("val", "n0", n0), ("out", "ct0", n0), ("in", "key", 16),
                                  ("in", "iv", 16), ("in", "pt", n), ("val", "n", n), ("out", "ct", n), ("out", "tag", 16)], ref, cost=n / 16 + 8, **kw)


def ag_pairs(tier):
    if tier == "quick":
        return [(a, n) for a in (0, 1, 16, 17) for n in (0, 1, 3, 14, 15, 16, 17, 33)] + [(33, 32), (15, 31), (64, 64), (40, 129)] + \
               [(2 + n % 13, n) for n in range(2, 32)] + [(a, 5 + a % 16) for a in range(2, 34)]
    return [(a, n) for a in range(0, 50) for n in range(0, 50)] + [(128, 128), (129, 500), (500, 129), (0, 1024)]


def c06(tier):
    pr = ag_pairs(tier)
    for v in VAR:
        for k, (a, n) in enumerate(pr):
            if tier == "quick" and v in ("x86plain", "armplain") and k % 4:
                continue
            yield ag_enc(AG[v], a, n)
        yield ag_again(AG[v], 17, 3, 20)


def c07(tier):
    pr = ag_pairs(tier)
    for v in VAR:
        for k, (a, n) in enumerate(pr):
            if tier == "quick" and v in ("x86plain", "armplain") and k % 4:
                continue
            yield ag_dec(AG[v], a, n)
        for a, n in ((0, 0), (0, 1), (3, 16), (17, 33), (16, 5)):
            yield ag_trip(AG[v], a, n)
        yield ag_afterdec(AG[v], 18, 9)


FE = "the compiler front end (clang -O0, mem2reg) preserves the source semantics; every task is compared with a native g++ run on sample inputs"
INS = "the AES instructions of x86 and ARMv8 act as specified by their manuals (engine model; compared natively every run, ARM under qemu)"
V = "portable AES, portable parts of the x86 and ARM libraries, x86 intrinsics, ARM intrinsics"
PROPS = {
    "C02": Prop(c02, [R.selftest], [FE, INS], lambda t: {"keys": "all 2^128", "blocks": "all 2^128", "builds": V + ", round-reduced"}),
    "C03": Prop(c03, [R.selftest], [FE, INS], lambda t: {"packet lengths": ctr_sizes(t) + [4101], "key, nonce, data": "all values", "builds": V}),
    "C04": Prop(c04, [R.selftest], [FE, INS], lambda t: {"three-packet lengths": cfb_lens(t), "key, IV, data": "all values", "builds": V}),
    "C05": Prop(c05, [R.selftest], [FE, INS], lambda t: {"key, IVs, data, transmission errors": "all values", "builds": V}),
    "C06": Prop(c06, [R.selftest], [FE, INS], lambda t: {"(associated data, message) lengths": ag_pairs(t), "key, IV, data": "all values", "builds": V}),
    "C07": Prop(c07, [R.selftest], [FE, INS], lambda t: {"(associated data, message) lengths": ag_pairs(t), "key, IV, data, received tag": "all values", "builds": V}),
}

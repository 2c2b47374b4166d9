"""SHA-256 (C13), HMAC-SHA-256 (C14, C15) and MD5 (C16)."""
from build import Config
from check import Task
from props import Prop
import sha256
import md5 as md5ref
import terms as tm

SH = {"hash": Config("sha256", "Hash/SHA/SHA-2/SHA-256", "plain", "sha256.cpp"),
      "hmac": Config("sha256_hmac", "Authentication/HMAC-SHA-256", "plain", "sha256.cpp")}
HM = Config("hmac", "Authentication/HMAC-SHA-256", "plain", "hmac.cpp")
MD = Config("md5", "Legacy/MD5", "plain", "md5.cpp")


def blocks(n):
    return (n + 9 + 63) // 64


# ---------------------------------------------------------------- C13
def sha(w, n, **kw):
    return Task(SH[w], "vh_hash", [("in", "msg", n), ("val", "n", n), ("out", "out", 32)],
                lambda I: {"out": sha256.sha256(I["msg"])}, cost=blocks(n), words=True, **kw)


def sha2(w, a, b, **kw):
    return Task(SH[w], "vh_twice", [("in", "m0", a), ("val", "n0", a), ("out", "o0", 32), ("in", "msg", b), ("val", "n", b), ("out", "out", 32)],
                lambda I: {"o0": sha256.sha256(I["m0"]), "out": sha256.sha256(I["msg"])}, cost=blocks(a) + blocks(b), words=True, **kw)


def c13(tier):
    q = tier == "quick"
    for w in SH:
        for n in (list(range(0, 131)) + [183, 184, 191, 192, 247, 248, 256] if q else list(range(0, 520)) + [1000, 1015, 1016, 1024, 2048, 4096 + 55, 8192]):
            yield sha(w, n)
        yield sha2(w, 70, 3)
        yield sha2(w, 3, 64)


# ---------------------------------------------------------------- C14
def tag(kn, n, tn, **kw):
    return Task(HM, "vh_tag", [("in", "key", kn), ("val", "kn", kn), ("in", "msg", n), ("val", "n", n), ("out", "tag", tn), ("val", "tn", tn)],
                lambda I: {"tag": sha256.hmac(I["key"], I["msg"])[:tn]}, cost=3 + blocks(n) + (blocks(kn) if kn > 64 else 0), words=True, **kw)


def hm_rekey(kn0, n0, kn, n, **kw):
    return Task(HM, "vh_rekey", [("in", "key0", kn0), ("val", "kn0", kn0), ("in", "m0", n0), ("val", "n0", n0), ("out", "tag0", 32),
                                 ("in", "key", kn), ("val", "kn", kn), ("in", "msg", n), ("val", "n", n), ("out", "tag", 32)],
                lambda I: {"tag0": sha256.hmac(I["key0"], I["m0"]), "tag": sha256.hmac(I["key"], I["msg"])}, cost=6 + blocks(n) + blocks(n0), words=True, **kw)


def c14(tier):
    q = tier == "quick"
    for kn in ([0, 1, 16, 31, 32, 33, 55, 63, 64, 65, 66, 100, 119, 120, 128, 131] if q else list(range(0, 140)) + [183, 184, 200, 256]):
        yield tag(kn, 20, 32)
    for n in (list(range(0, 70)) + [118, 119, 120, 127, 128, 129] if q else list(range(0, 260)) + [511, 512, 1000]):
        yield tag(32, n, 32)
    for tn in range(1, 33):
        yield tag(20, 9, tn)
    for kn, n in ((0, 0), (64, 64), (65, 0), (70, 55), (64, 56)):
        yield tag(kn, n, 32)
    for s in ((32, 5, 20, 7), (131, 0, 3, 64), (10, 64, 131, 0)):
        yield hm_rekey(*s)
    if not q:
        for kn in (0, 1, 63, 64, 65, 131):
            for n in (0, 1, 55, 56, 63, 64, 65, 119, 120):
                for tn in (1, 16, 31, 32):
                    yield tag(kn, n, tn)


# ---------------------------------------------------------------- C15
def alleq(a, b):
    r = 1
    for x, y in zip(a, b):
        r = tm.and_([r, tm.eq(x, y, 8)], 1)
    return r


def b64(c):
    return tm.zext(c, 1, 64)


def validate(kn, n, tn, **kw):
    return Task(HM, "vh_validate", [("in", "key", kn), ("val", "kn", kn), ("in", "msg", n), ("val", "n", n), ("in", "tag", tn), ("val", "tn", tn)],
                lambda I: {"ret": b64(alleq(sha256.hmac(I["key"], I["msg"])[:tn], I["tag"]))}, cost=6 + blocks(n), words=True, **kw)


def both(kn, n, tn, **kw):
    return Task(HM, "vh_both", [("in", "key", kn), ("val", "kn", kn), ("in", "msg", n), ("val", "n", n), ("in", "delta", tn), ("val", "tn", tn)],
                lambda I: {"ret": b64(alleq(I["delta"], [0] * tn))}, cost=6 + blocks(n), words=True, **kw)


def hm_next(kn, n0, n, **kw):
    return Task(HM, "vh_next", [("in", "key", kn), ("val", "kn", kn), ("in", "m0", n0), ("val", "n0", n0), ("in", "tag0", 16), ("in", "msg", n), ("val", "n", n), ("out", "tag", 32)],
                lambda I: {"ret": b64(alleq(sha256.hmac(I["key"], I["m0"])[:16], I["tag0"])), "tag": sha256.hmac(I["key"], I["msg"])}, cost=8 + blocks(n), words=True, **kw)


def c15(tier):
    q = tier == "quick"
    for tn in range(1, 33):
        yield validate(32, 11, tn)
        yield both(16, 11, tn)
    for n in ((0, 1, 54, 55, 56, 63, 64, 65, 119, 120) if q else range(0, 200)):
        yield validate(32, n, 16)
        yield both(20, n, 32)
    for kn in ((0, 1, 63, 64, 65, 131) if q else range(0, 132)):
        yield validate(kn, 8, 32)
        yield both(kn, 8, 32)
    yield hm_next(32, 5, 40)
    yield hm_next(65, 0, 0)


# ---------------------------------------------------------------- C16
def mw(n, **kw):
    return Task(MD, "vh_whole", [("in", "msg", n), ("val", "n", n), ("out", "out", 16)], lambda I: {"out": md5ref.md5(I["msg"])},
                cost=blocks(n), words=True, **kw)


def m3(a, b, c, **kw):
    return Task(MD, "vh_three", [("in", "a", a), ("val", "n", a), ("in", "b", b), ("val", "n2", b), ("in", "c", c), ("val", "n3", c), ("out", "out", 16)],
                lambda I: {"out": md5ref.md5(I["a"] + I["b"] + I["c"])}, cost=blocks(a + b + c), words=True, **kw)


def mp(n, k, **kw):
    return Task(MD, "vh_pieces", [("in", "a", n), ("val", "n", n), ("val", "k", k), ("out", "out", 16)],
                lambda I: {"out": md5ref.md5(I["a"])}, cost=blocks(n), words=True, **kw)


def m_again(a, b, c, **kw):
    return Task(MD, "vh_again", [("in", "a", a), ("val", "n", a), ("in", "b", b), ("val", "n2", b), ("out", "out2", 16), ("in", "c", c), ("val", "n3", c), ("out", "out", 16)],
                lambda I: {"out2": md5ref.md5(I["b"]), "out": md5ref.md5(I["c"])}, cost=blocks(b) + blocks(c), words=True, **kw)


def c16(tier):
    q = tier == "quick"
    for n in (list(range(0, 131)) + [183, 184, 191, 192, 193] if q else list(range(0, 400)) + [511, 512, 1000, 2048, 4096]):
        yield mw(n)
    L = (0, 1, 3, 55, 56, 63, 64, 65) if q else (0, 1, 2, 5, 8, 31, 55, 56, 60, 63, 64, 65, 100, 119, 120, 127, 128)
    for a in L:
        for b in L:
            for c in ((0, 1, 64) if q else (0, 1, 9, 56, 63, 64, 65)):
                yield m3(a, b, c)
    for n, k in ((130, 1), (130, 7), (129, 64), (200, 63), (200, 65)):
        yield mp(n, k)
    for s in ((5, 70, 3), (64, 0, 64), (63, 1, 56)):
        yield m_again(*s)


FE = "the compiler front end (clang -O0, mem2reg) preserves the source semantics; every task is compared with a native g++ run on sample inputs"
PROPS = {
    "C13": Prop(c13, [sha256.selftest], [FE], lambda t: {"contents": "all values", "lengths": "0..130 and up to 256" if t == "quick" else "0..519 and up to 8192"}),
    "C14": Prop(c14, [sha256.selftest], [FE], lambda t: {"contents": "all values", "key lengths": "0..131 (quick: 16 of them)", "message lengths": "0..69, 118..129" if t == "quick" else "0..259, 511, 512, 1000", "tag lengths": "1..32"}),
    "C15": Prop(c15, [sha256.selftest], [FE], lambda t: {"contents and received tags": "all values", "tag lengths": "1..32", "message lengths": "0..120 (selected)" if t == "quick" else "0..199"}),
    "C16": Prop(c16, [md5ref.selftest], [FE], lambda t: {"contents": "all values", "lengths": "0..130, up to 193" if t == "quick" else "0..399, up to 4096", "pieces": "three pieces of selected lengths, equal pieces of 1..65 bytes"}),
}

"""DES (C17, C18) and the hex encoder (C19)."""
from build import Config
from check import Task
from props import Prop
import des
import util as U
import terms as tm

DE = Config("des", "Legacy/DES", "plain", "des.cpp")
HX = Config("hex", "Encoders/Hex", "plain", "hexenc.cpp")


# ---------------------------------------------------------------- C17
def d_block(entry, **kw):
    f = des.encrypt if entry == "vh_enc" else des.decrypt
    return Task(DE, entry, [("in", "key", 8), ("in", "in", 8), ("out", "out", 8)], lambda I: {"out": f(I["key"], I["in"])}, cost=3, **kw)


def d_trip(**kw):
    return Task(DE, "vh_trip", [("in", "key", 8), ("in", "in", 8), ("out", "out", 8)], lambda I: {"out": I["in"]}, cost=5, **kw)


def d_rekey(d, n0, n, **kw):
    def ref(I):
        f = lambda k, x, m: [b for i in range(0, len(x), 8) for b in (des.decrypt if m else des.encrypt)(k, x[i:i + 8])]
        return {"out0": f(I["key0"], I["in0"], d & 1), "out": f(I["key"], I["in"], d & 2)}
    return Task(DE, "vh_rekey", [("in", "key0", 8), ("val", "dir", d), ("in", "in0", n0), ("out", "out0", n0), ("val", "n0", n0),
                                 ("in", "key", 8), ("in", "in", n), ("out", "out", n), ("val", "n", n)], ref, cost=3 + (n + n0) / 8, **kw)


def c17(tier):
    yield d_block("vh_enc")
    yield d_block("vh_dec")
    yield d_trip()
    for d in range(4):
        yield d_rekey(d, 8, 8)


# ---------------------------------------------------------------- C18
def d_ecb(d, n, **kw):
    def ref(I):
        f = des.decrypt if d else des.encrypt
        return {"out": [b for i in range(0, n, 8) for b in f(I["key"], I["in"][i:i + 8])]}
    return Task(DE, "vh_ecb", [("in", "key", 8), ("val", "dir", d), ("in", "in", n), ("out", "out", n), ("val", "n", n)], ref, cost=1 + n / 8, **kw)


def d_ecb2(n, **kw):
    return Task(DE, "vh_ecb2", [("in", "key", 8), ("in", "in", n), ("out", "ct", n), ("out", "out", n), ("val", "n", n)],
                lambda I: {"out": I["in"]}, cost=1 + n / 4, **kw)


def ctr(key, nonce, x):
    hi, lo = U.be(nonce[:4]), U.be(nonce[4:])
    out = []
    for i in range(0, len(x), 8):
        out += U.xb(x[i:i + 8], des.encrypt(key, U.tobe(hi, 4) + U.tobe(lo, 4)))
        lo = U.add32(lo, 1)
        hi = tm.ite(tm.eq(lo, 0, 32), U.add32(hi, 1), hi, 32)
    return out


def d_ctr(n, nn=8, **kw):
    return Task(DE, "vh_ctr", [("in", "key", 8), ("in", "nonce", nn), ("in", "in", n), ("out", "out", n), ("val", "n", n)],
                lambda I: {"out": ctr(I["key"], I["nonce"][:8], I["in"])}, cost=1 + n / 8, **kw)


def d_ctr2(n, **kw):
    return Task(DE, "vh_ctr2", [("in", "key", 8), ("in", "nonce", 8), ("in", "in", n), ("out", "ct", n), ("out", "out", n), ("val", "n", n)],
                lambda I: {"out": I["in"]}, cost=1 + n / 4, **kw)


def c18(tier):
    q = tier == "quick"
    for n in ((0, 8, 16, 24, 32, 64) if q else range(0, 264, 8)):
        yield d_ecb(0, n)
        yield d_ecb(1, n)
        yield d_ecb2(n)
        yield d_ctr(n)
        yield d_ctr2(n)


# ---------------------------------------------------------------- C19
def hexdigit(v):
    return tm.lut([ord(c) for c in "0123456789ABCDEF"], v, 8)


def hexref(I):
    return [x for b in I for x in (hexdigit(tm.ext(b, 4, 4)), hexdigit(tm.ext(b, 0, 4)))]


def h_enc(n, **kw):
    return Task(HX, "vh_encode", [("in", "in", n), ("out", "out", 2 * n + 1), ("val", "n", n)],
                lambda I: {"out": hexref(I["in"]) + [0]}, cost=n, **kw)


def h_trip(n, **kw):
    return Task(HX, "vh_trip", [("in", "in", n), ("out", "hex", 2 * n + 1), ("out", "out", n), ("val", "n", n)],
                lambda I: {"out": I["in"], "hex": hexref(I["in"]) + [0]}, cost=2 * n, **kw)


def c19(tier):
    for n in (list(range(0, 18)) + [31, 32, 33, 64, 100] if tier == "quick" else list(range(0, 130)) + [255, 256, 1000]):
        yield h_enc(n)
        yield h_trip(n)


FE = "the compiler front end (clang -O0, mem2reg) preserves the source semantics; every task is compared with a native g++ run on sample inputs"
PROPS = {
    "C17": Prop(c17, [des.selftest], [FE], {"keys, blocks": "all values"}),
    "C18": Prop(c18, [des.selftest], [FE], lambda t: {"keys, nonces, data": "all values", "packet lengths": "multiples of 8 up to %d" % (64 if t == "quick" else 256)}),
    "C19": Prop(c19, [], [FE, "sprintf(\"%02X\") behaves as the C standard says"], lambda t: {"contents": "all values", "lengths": "0..17 and up to 100" if t == "quick" else "0..129 and up to 1000"}),
}

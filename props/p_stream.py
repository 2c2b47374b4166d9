"""HC-128 (C08), Rabbit (C09), Serpent (C11) and Sosemanuk (C12)."""
from build import Config
from check import Task
from props import Prop
import hc128
import rabbit
import serpent
import sosemanuk
import util as U

HC = Config("hc128", "StreamCiphers/HC-128", "plain", "hc128.cpp")
RB = Config("rabbit", "StreamCiphers/Rabbit", "plain", "rabbit.cpp")
SO = Config("sosemanuk", "StreamCiphers/Sosemanuk", "plain", "sosemanuk.cpp")
SP = {"own": Config("serpent", "BlockCiphers/Serpent", "plain", "serpent.cpp"),
      "sosemanuk": Config("serpent_sos", "StreamCiphers/Sosemanuk", "plain", "serpent.cpp")}


class Sk16(sosemanuk.Sosemanuk):
    pass


CIPH = {"hc": (HC, 16, 16, hc128.HC128, 12), "rb": (RB, 16, 8, rabbit.Rabbit, 3), "so": (SO, 16, 16, Sk16, 2)}


def pk(c, *names):
    """packet arguments: data in, data out, length"""
    return [x for nm, n in names for x in (("in", nm, n), ("out", nm.replace("in", "out"), n), ("val", nm.replace("in", "n"), n))]


def packet(c, n, **kw):
    cfg, kn, vn, C, k = CIPH[c]
    return Task(cfg, "vh_packet", [("in", "key", kn), ("in", "iv", vn), ("in", "in", n), ("out", "out", n), ("val", "n", n)],
                lambda I: {"out": C(I["key"], I["iv"]).packet(I["in"])}, cost=k + n / 16, words=c != "rb", **kw)


def three(c, a, b, d, **kw):
    cfg, kn, vn, C, k = CIPH[c]

    def ref(I):
        x = C(I["key"], I["iv"])
        return {"out": x.packet(I["in"]), "out2": x.packet(I["in2"]), "out3": x.packet(I["in3"])}
    return Task(cfg, "vh_three", [("in", "key", kn), ("in", "iv", vn)] + pk(c, ("in", a), ("in2", b), ("in3", d)), ref, cost=k + (a + b + d) / 16, words=c != "rb", **kw)


def two(c, a, b, **kw):
    cfg, kn, vn, C, k = CIPH[c]

    def ref(I):
        x = C(I["key"], I["iv"])
        return {"out": x.packet(I["in"]), "out2": x.packet(I["in2"])}
    return Task(cfg, "vh_two", [("in", "key", kn), ("in", "iv", vn)] + pk(c, ("in", a), ("in2", b)), ref, cost=k + (a + b) / 16, words=c != "rb", **kw)


def reiv(c, n0, n, **kw):
    cfg, kn, vn, C, k = CIPH[c]

    def ref(I):
        return {"out0": C(I["key"], I["iv0"]).packet(I["in0"]), "out": C(I["key"], I["iv"]).packet(I["in"])}
    return Task(cfg, "vh_reiv", [("in", "key", kn), ("in", "iv0", vn)] + pk(c, ("in0", n0)) + [("in", "iv", vn)] + pk(c, ("in", n)), ref,
                cost=2 * k + (n + n0) / 16, words=c != "rb", **kw)


# ---------------------------------------------------------------- C08
def c08(tier):
    q = tier == "quick"
    for n in ([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 64, 67] if q else list(range(0, 70)) + [127, 128, 255, 1000]):
        yield packet("hc", n)
    for s in ([(1, 4, 9), (16, 0, 3), (5, 5, 5), (64, 3, 64)] if q else [(a, b, c) for a in (0, 1, 4, 7, 64) for b in (1, 3, 8) for c in (4, 5)]):
        yield three("hc", *s)
    # across the table change at word 512 and the wrap at word 1024
    for s in ([(2047, 6), (4096, 21)] if q else [(2047, 6), (2048, 5), (2052, 2052), (4096, 21), (4093, 4200), (8192, 9)]):
        yield two("hc", *s)


# ---------------------------------------------------------------- C09
def rb_noiv(n, n2, **kw):
    def ref(I):
        x = rabbit.Rabbit(I["key"])
        return {"out": x.packet(I["in"]), "out2": x.packet(I["in2"])}
    return Task(RB, "vh_noiv", [("in", "key", 16)] + pk("rb", ("in", n), ("in2", n2)), ref, cost=3, **kw)


def rb_lateiv(n0, n, **kw):
    def ref(I):
        return {"out0": rabbit.Rabbit(I["key"]).packet(I["in0"]), "out": rabbit.Rabbit(I["key"], I["iv"]).packet(I["in"])}
    return Task(RB, "vh_lateiv", [("in", "key", 16)] + pk("rb", ("in0", n0)) + [("in", "iv", 8)] + pk("rb", ("in", n)), ref, cost=5, **kw)


def rb_extract(**kw):
    def ref(I):
        x = rabbit.Rabbit(I["key"], I["iv"])
        return {"out": x.block() + x.block()}
    return Task(RB, "vh_extract", [("in", "key", 16), ("in", "iv", 8), ("out", "out", 32)], ref, cost=3, **kw)


def rb_rekey(n0, n, **kw):
    def ref(I):
        return {"out0": rabbit.Rabbit(I["key0"], I["iv0"]).packet(I["in0"]), "out": rabbit.Rabbit(I["key"]).packet(I["in"])}
    return Task(RB, "vh_rekey", [("in", "key0", 16), ("in", "iv0", 8)] + pk("rb", ("in0", n0)) + [("in", "key", 16)] + pk("rb", ("in", n)), ref, cost=5, **kw)


def c09(tier):
    q = tier == "quick"
    for n in (list(range(0, 36)) + [47, 48, 49, 80, 100] if q else list(range(0, 130)) + [255, 256, 512, 1000]):
        yield packet("rb", n)
    for s in ([(1, 16, 5), (16, 16, 16), (15, 17, 1), (0, 3, 32), (20, 0, 20)] if q else
              [(a, b, c) for a in (0, 1, 15, 16, 17, 33) for b in (1, 15, 16, 17) for c in (1, 16, 20)]):
        yield three("rb", *s)
    for s in [(0, 16), (16, 5), (7, 33), (32, 32)]:
        yield rb_noiv(*s)
        yield rb_lateiv(*s)
    yield reiv("rb", 21, 20)
    yield rb_extract()


# ---------------------------------------------------------------- C11
def sp_block(w, kn, **kw):
    def ref(I):
        K = serpent.schedule(I["key"], 25)
        st = serpent.serpent24(K, [U.le(I["in"][4 * i:4 * i + 4]) for i in range(4)])
        return {"out": [b for s in st for x in s for b in U.tole(x, 4)]}
    return Task(SP[w], "vh_block", [("in", "key", kn), ("val", "kn", kn), ("in", "in", 16), ("out", "out", 48)], ref, cost=3, words=True, **kw)


def sp_rekey(w, kn0, kn, **kw):
    def ref(I):
        K = serpent.schedule(I["key"], 25)
        st = serpent.serpent24(K, [U.le(I["in"][4 * i:4 * i + 4]) for i in range(4)])
        return {"out": [b for s in st for x in s for b in U.tole(x, 4)]}
    return Task(SP[w], "vh_rekey", [("in", "key0", kn0), ("val", "kn0", kn0), ("in", "key", kn), ("val", "kn", kn), ("in", "in", 16), ("out", "out", 48)],
                ref, cost=5, words=True, **kw)


def sp_sbox(w, **kw):
    def ref(I):
        x = serpent.sbox(2, [U.le(I["in"][4 * i:4 * i + 4]) for i in range(4)])
        return {"out": [b for v in x for b in U.tole(v, 4)]}
    return Task(SP[w], "vh_sbox", [("in", "in", 16), ("out", "out", 16)], ref, words=True, **kw)


def c11(tier):
    for w in SP:
        for kn in ((0, 1, 5, 15, 16, 17, 24, 31, 32) if tier == "quick" else range(0, 33)):
            yield sp_block(w, kn)
        yield sp_rekey(w, 32, 16)
        yield sp_rekey(w, 5, 32)
        yield sp_sbox(w)


# ---------------------------------------------------------------- C12
def so_key(kn, n, **kw):
    return Task(SO, "vh_key", [("in", "key", kn), ("val", "kn", kn), ("in", "iv", 16), ("in", "in", n), ("out", "out", n), ("val", "n", n)],
                lambda I: {"out": sosemanuk.Sosemanuk(I["key"], I["iv"]).packet(I["in"])}, cost=3 + n / 16, words=True, **kw)


def c12(tier):
    q = tier == "quick"
    for n in (list(range(0, 36)) + [47, 48, 49, 79, 80, 81, 159, 160, 161, 200] if q else list(range(0, 330)) + [480, 481, 1000]):
        yield packet("so", n)
    for kn in (range(16, 33) if q else range(0, 33)):
        yield so_key(kn, 32)
    for s in ([(1, 16, 5), (16, 16, 16), (15, 17, 1), (0, 3, 32), (20, 0, 20), (80, 80, 1), (79, 1, 81)] if q else
              [(a, b, c) for a in (0, 1, 15, 16, 17, 79, 80, 81) for b in (1, 15, 16, 17, 80) for c in (1, 16, 80)]):
        yield three("so", *s)
    yield reiv("so", 37, 20)
    yield reiv("so", 80, 20)


FE = "the compiler front end (clang -O0, mem2reg) preserves the source semantics; every task is compared with a native g++ run on sample inputs"
PROPS = {
    "C08": Prop(c08, [hc128.selftest], [FE], lambda t: {"keys, IVs, data": "all values", "keystream": "words 0..%d, packet splits as listed" % (1030 if t == "quick" else 2070)}),
    "C09": Prop(c09, [rabbit.selftest], [FE], lambda t: {"keys, IVs, data": "all values", "lengths": "0..100" if t == "quick" else "0..130, 255, 256, 512, 1000"}),
    "C11": Prop(c11, [serpent.selftest], [FE], lambda t: {"keys, blocks": "all values", "key lengths": "0..32 bytes (quick: 9 of them)"}),
    "C12": Prop(c12, [sosemanuk.selftest], [FE], lambda t: {"keys, IVs, data": "all values", "key lengths": "16..32", "lengths": "0..200" if t == "quick" else "0..1000"}),
}

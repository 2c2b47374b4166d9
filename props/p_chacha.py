from build import Config
from check import Task
from props import Prop
import chacha as R

DIR = "StreamCiphers/ChaCha"
CFG = {20: Config("chacha", DIR, "plain", "chacha.cpp"), 8: Config("chacha8", DIR, "rounds8", "chacha.cpp"),
       12: Config("chacha12", DIR, "rounds12", "chacha.cpp")}


def packet(rounds, n, **kw):
    return Task(CFG[rounds], "vh_packet", [("in", "key", 32), ("in", "nonce", 12), ("in", "in", n), ("out", "out", n), ("val", "n", n)],
                lambda I: {"out": R.encrypt(I["key"], I["nonce"], I["in"], rounds)}, cost=n / 10 + 1, **kw)


def block(rounds, **kw):
    return Task(CFG[rounds], "vh_block", [("in", "key", 32), ("in", "nonce", 12), ("in", "ctr", 4), ("out", "out", 64)],
                lambda I: {"out": R.block(I["key"], I["nonce"], R.le(I["ctr"]), rounds)}, cost=5, **kw)


def two(n, n2, **kw):
    return Task(CFG[20], "vh_two", [("in", "key", 32), ("in", "nonce", 12), ("in", "in", n), ("out", "out", n), ("val", "n", n),
                                    ("in", "in2", n2), ("out", "out2", n2), ("val", "n2", n2)],
                lambda I: {"out": R.encrypt(I["key"], I["nonce"], I["in"]), "out2": R.encrypt(I["key"], I["nonce"], I["in2"])},
                cost=(n + n2) / 10 + 1, **kw)


def sizes(tier):
    if tier == "quick":
        return list(range(0, 70)) + list(range(125, 131)) + [191, 192, 193, 256, 257, 320, 640, 16500]
    return list(range(0, 260)) + [319, 320, 321, 511, 512, 513, 640, 1000, 1024, 2047, 4096, 16385]


def c01(tier):
    for n in sizes(tier):
        yield packet(20, n)
    for r in (8, 12):
        for n in ([0, 1, 3, 7, 63, 64, 65, 100, 128, 131] if tier == "quick" else list(range(0, 132)) + [192, 256, 1000]):
            yield packet(r, n)
    for r in (20, 12, 8):
        yield block(r)
    for a, b in [(0, 64), (1, 63), (64, 64), (65, 130), (100, 7)]:
        yield two(a, b)


PROPS = {"C01": Prop(c01, [R.selftest], [
    "the compiler front end (clang -O0, mem2reg) preserves the source semantics; checked on sample inputs against g++ builds every run"],
    lambda tier: {"packet lengths (20 rounds)": sizes(tier), "key/nonce/counter/data": "all values"})}

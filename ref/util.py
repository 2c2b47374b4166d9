"""Reference algorithms are written over these helpers; they run on ints and on terms alike."""
import terms as tm
from terms import T


def le(bs):
    if all(b.__class__ is int for b in bs):
        return int.from_bytes(bytes(bs), "little")
    return tm.cat([(b, 8) for b in bs])


def be(bs):
    return le(list(bs)[::-1])


def tole(v, n):
    return [tm.ext(v, 8 * k, 8) for k in range(n)]


def tobe(v, n):
    return tole(v, n)[::-1]


def x8(a, b):
    return tm.xor([a, b], 8)


def xb(a, b):
    return [tm.xor([p, q], 8) for p, q in zip(a, b)]


def add32(*l):
    return tm.add_n([(1, x) for x in l if x.__class__ is T], sum(x for x in l if x.__class__ is int), 32)


def xor32(*l):
    return tm.xor(list(l), 32)


def and32(a, b):
    return tm.and_([a, b], 32)


def or32(a, b):
    return tm.or_(a, b, 32)


def not32(a):
    return tm.not_(a, 32)


def rotl32(a, k):
    return tm.rotl(a, k, 32)


def rotr32(a, k):
    return tm.rotr(a, k, 32)


def shl32(a, k):
    return tm.shl(a, k, 32)


def shr32(a, k):
    return tm.lshr(a, k, 32)


def hexb(s):
    return list(bytes.fromhex(s.replace(" ", "")))

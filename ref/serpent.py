"""Serpent from its specification (bitslice order): S-boxes as 4-bit tables, key schedule, rounds; Sosemanuk's uses of it."""
from util import *

PHI = 0x9e3779b9
SB = [
    [3, 8, 15, 1, 10, 6, 5, 11, 14, 13, 4, 2, 7, 0, 9, 12],
    [15, 12, 2, 7, 9, 0, 5, 10, 1, 11, 14, 8, 6, 13, 3, 4],
    [8, 6, 7, 9, 3, 12, 10, 15, 13, 1, 14, 4, 0, 11, 5, 2],
    [0, 15, 11, 8, 12, 9, 6, 3, 13, 1, 2, 4, 10, 7, 5, 14],
    [1, 15, 8, 3, 12, 0, 11, 6, 2, 5, 4, 10, 9, 14, 7, 13],
    [15, 5, 2, 11, 4, 10, 9, 12, 0, 3, 14, 8, 13, 6, 7, 1],
    [7, 2, 12, 5, 8, 4, 6, 11, 14, 9, 1, 15, 13, 3, 10, 0],
    [1, 13, 15, 0, 14, 8, 2, 11, 7, 4, 12, 10, 9, 3, 5, 6],
]


def _anf():
    """algebraic normal form of every output bit of every S-box: list of monomials (masks)"""
    out = []
    for s in SB:
        l = []
        for b in range(4):
            f = [(s[x] >> b) & 1 for x in range(16)]
            for i in range(4):
                for x in range(16):
                    if x >> i & 1:
                        f[x] ^= f[x ^ (1 << i)]
            l.append([m for m in range(16) if f[m]])
        out.append(l)
    return out


ANF = _anf()


def sbox(n, x):
    """bitslice S-box n mod 8 on four words, x[0] least significant"""
    o = []
    for mons in ANF[n % 8]:
        t = []
        for m in mons:
            if m == 0:
                t.append(0xffffffff)
            else:
                f = [x[i] for i in range(4) if m >> i & 1]
                t.append(f[0] if len(f) == 1 else tm.and_(f, 32))
        o.append(tm.xor(t, 32))
    return o


def lt(x):
    a, b, c, d = x
    a = rotl32(a, 13); c = rotl32(c, 3)
    b = xor32(b, a, c); d = xor32(d, c, shl32(a, 3))
    b = rotl32(b, 1); d = rotl32(d, 7)
    a = xor32(a, b, d); c = xor32(c, d, shl32(b, 7))
    a = rotl32(a, 5); c = rotl32(c, 22)
    return [a, b, c, d]


def schedule(key, nk=33):
    k = list(key)
    if len(k) < 32:
        k = k + [1] + [0] * (31 - len(k))
    w = [le(k[4 * i:4 * i + 4]) for i in range(8)]
    for i in range(4 * nk):
        w.append(rotl32(xor32(w[i], w[i + 3], w[i + 5], w[i + 7], PHI ^ i), 11))
    w = w[8:]
    return [sbox(3 - i, w[4 * i:4 * i + 4]) for i in range(nk)]


def x4(a, b):
    return [xor32(p, q) for p, q in zip(a, b)]


def encrypt(key, blk):
    K = schedule(key)
    x = [le(blk[4 * i:4 * i + 4]) for i in range(4)]
    for i in range(32):
        x = sbox(i, x4(x, K[i]))
        x = lt(x) if i < 31 else x4(x, K[32])
    return [b for v in x for b in tole(v, 4)]


def serpent24(K, x):
    """states after rounds 12, 18 and 24 (the 24th with LT and the 25th subkey), four words each"""
    out = []
    for i in range(24):
        x = lt(sbox(i, x4(x, K[i])))
        if i == 23:
            x = x4(x, K[24])
        if i in (11, 17, 23):
            out.append(list(x))
    return out


def selftest():
    # NESSIE 128- and 256-bit key vectors (set 1, vector 0) in little-endian form
    assert bytes(encrypt(hexb("80000000000000000000000000000000"), [0] * 16)).hex().upper() == "264E5481EFF42A4606ABDA06C0BFDA3D"
    assert bytes(encrypt(hexb("80" + "00" * 31), [0] * 16)).hex().upper() == "A223AA1288463C0E2BE38EBD825616C0"
    return 2

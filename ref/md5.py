"""MD5 (RFC 1321); the sine table is computed."""
from util import *
import math

TT = [int(abs(math.sin(i + 1)) * 2 ** 32) & 0xffffffff for i in range(64)]
SH = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]]


def md5(m):
    p = list(m) + [0x80]
    p += [0] * ((56 - len(p)) % 64) + list((8 * len(m)).to_bytes(8, "little"))
    st = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476]
    for o in range(0, len(p), 64):
        X = [le(p[o + 4 * i:o + 4 * i + 4]) for i in range(16)]
        a, b, c, d = st
        for i in range(64):
            r = i // 16
            if r == 0:
                f = or32(and32(b, c), and32(not32(b), d)); k = i
            elif r == 1:
                f = or32(and32(b, d), and32(c, not32(d))); k = (5 * i + 1) % 16
            elif r == 2:
                f = xor32(b, c, d); k = (3 * i + 5) % 16
            else:
                f = xor32(c, or32(b, not32(d))); k = 7 * i % 16
            a, b, c, d = d, add32(b, rotl32(add32(a, f, X[k], TT[i]), SH[r][i % 4])), b, c
        st = [add32(x, y) for x, y in zip(st, (a, b, c, d))]
    return [b for w in st for b in tole(w, 4)]


def selftest():
    import hashlib
    for n in (0, 1, 3, 55, 56, 63, 64, 65, 130):
        m = bytes((5 * i + n) & 255 for i in range(n))
        assert bytes(md5(m)) == hashlib.md5(m).digest()
    return 9

"""DES (FIPS 46-3) on bit lists, from the tables of the standard."""
from util import *

IP = [58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32, 24, 16, 8,
      57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47, 39, 31, 23, 15, 7]
FP = [IP.index(i) + 1 for i in range(1, 65)]
EE = [32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17, 16, 17, 18, 19, 20, 21, 20, 21, 22, 23, 24, 25,
      24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1]
PP = [16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4, 25]
PC1 = [57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36,
       63, 55, 47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4]
PC2 = [14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2,
       41, 52, 31, 37, 47, 55, 30, 40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32]
ROT = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1]
S = [
    None,
    "f18e6b34972dc05a3d47f28ec01a69b5" "0e7ba4d158c6932fd8a13f42b67c05e9",
    "a09e63f51dc7b428d709346a285ecbf1" "d6498f30b12c5ae71ad069874fe3b52c",
    "7de3069a1285bc4fd8b56f03472c1ae9" "a690cb7df13e52843f06a1d8945bc72e",
    "2c417ab6853fd0e9eb2c47d150fa3986" "421bad78f9c5630eb8c71e2d6f09a453",
    "c1af92680d34e75baf427c9561de0b38" "9ef528c3704a1db6432c95fabe17608d",
    "4b2ef08d3c975a61d0b7491ae35c2f86" "14bdc37eaf680592" "6bd814a7950fe23c",
    "d2846fb1a93e50c71fd8a374c56b0e92" "7b419ce206adf35821e74a8dfc90356b",
]
def _s1():
    rows = ["14 4 13 1 2 15 11 8 3 10 6 12 5 9 0 7", "0 15 7 4 14 2 13 1 10 6 12 11 9 5 3 8",
            "4 1 14 8 13 6 2 11 15 12 9 7 3 10 5 0", "15 12 8 2 4 9 1 7 5 11 3 14 10 0 6 13"]
    return "".join("%x" % int(v) for r in rows for v in r.split())


S[0] = _s1()
SBOX = []
for s in S:
    assert len(s) == 64, len(s)
    rows = [[int(c, 16) for c in s[16 * r:16 * r + 16]] for r in range(4)]
    assert all(sorted(r) == list(range(16)) for r in rows)
    # index: the six input bits b1..b6 read as a number, b1 most significant
    SBOX.append([rows[(i >> 5) * 2 + (i & 1)][(i >> 1) & 15] for i in range(64)])


def bits(bs):
    """bit list, FIPS numbering: bit 1 is the most significant bit of the first byte"""
    return [tm.ext(b, 7 - k, 1) for b in bs for k in range(8)]


def unbits(l):
    return [tm.cat([(l[8 * i + 7 - k], 1) for k in range(8)]) for i in range(len(l) // 8)]


def perm(l, t):
    return [l[i - 1] for i in t]


def bx(a, b):
    return [tm.xor([p, q], 1) for p, q in zip(a, b)]


def schedule(key):
    k = perm(bits(key), PC1)
    C, D = k[:28], k[28:]
    out = []
    for r in ROT:
        C = C[r:] + C[:r]
        D = D[r:] + D[:r]
        out.append(perm(C + D, PC2))
    return out


def f(R, k):
    x = bx(perm(R, EE), k)
    o = []
    for i in range(8):
        v = tm.lut(SBOX[i], tm.cat([(x[6 * i + 5 - j], 1) for j in range(6)]), 4)
        o += [tm.ext(v, 3 - j, 1) for j in range(4)]
    return perm(o, PP)


def crypt(ks, blk):
    x = perm(bits(blk), IP)
    L, R = x[:32], x[32:]
    for k in ks:
        L, R = R, bx(L, f(R, k))
    return unbits(perm(R + L, FP))


def encrypt(key, blk):
    return crypt(schedule(key), blk)


def decrypt(key, blk):
    return crypt(schedule(key)[::-1], blk)


def selftest():
    k, p, c = hexb("133457799BBCDFF1"), hexb("0123456789ABCDEF"), hexb("85E813540F0AB405")
    assert encrypt(k, p) == c and decrypt(k, c) == p
    k, p, c = hexb("0E329232EA6D0D73"), hexb("8787878787878787"), hexb("0000000000000000")
    assert encrypt(k, p) == c
    # iterated test of all S-boxes (Rivest 1985)
    x = hexb("9474B8E8C73BCA7D")
    for i in range(16):
        x = encrypt(x, x) if i % 2 == 0 else decrypt(x, x)
    assert bytes(x).hex().upper() == "1B1A2DDB4C642438"
    return 4

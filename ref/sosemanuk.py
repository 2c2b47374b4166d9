"""Sosemanuk as in the eSTREAM submission; multiplication tables computed in the field."""
from util import *
import serpent


def bmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x1a9
        b >>= 1
    return r


def bpow(n):
    r = 1
    for _ in range(n):
        r = bmul(r, 2)
    return r


def _tab(e):
    c = [bpow(x) for x in e]
    return [sum(bmul(v, c[i]) << (24 - 8 * i) for i in range(4)) for v in range(256)]


MULA = _tab((23, 245, 48, 239))
DIVA = _tab((16, 39, 6, 64))


def mula(z):
    return xor32(shl32(z, 8), tm.lut(MULA, tm.ext(z, 24, 8), 32))


def diva(z):
    return xor32(shr32(z, 8), tm.lut(DIVA, tm.ext(z, 0, 8), 32))


class Sosemanuk:
    def __init__(self, key, iv):
        self.K = serpent.schedule(key, 25)
        self.load_iv(iv)

    def load_iv(self, iv):
        a, b, c = serpent.serpent24(self.K, [le(iv[4 * i:4 * i + 4]) for i in range(4)])
        # s[0] is s_1 .. s[9] is s_10
        self.s = [c[3], c[2], c[1], c[0], b[1], b[3], a[3], a[2], a[1], a[0]]
        self.r1, self.r2 = b[0], b[2]

    def step(self):
        s = self.s
        r1 = add32(self.r2, tm.ite(tm.ext(self.r1, 0, 1), xor32(s[1], s[8]), s[1], 32))
        self.r2 = rotl32(tm.mul(self.r1, 0x54655307, 32), 7)
        self.r1 = r1
        f = xor32(add32(s[9], r1), self.r2)
        n = xor32(s[9], diva(s[3]), mula(s[0]))
        self.s = s[1:] + [n]
        return f, s[0]

    def block(self):
        fs = [self.step() for _ in range(4)]
        z = serpent.sbox(2, [f for f, _ in fs])
        return [b for v, (_, s) in zip(z, fs) for b in tole(xor32(v, s), 4)]

    def packet(self, data):
        out = []
        for i in range(0, len(data), 16):
            out += xb(data[i:i + 16], self.block())
        return out


def selftest():
    k = bytes(Sosemanuk(hexb("A7C083FEB7"), hexb("00112233445566778899AABBCCDDEEFF")).packet([0] * 32)).hex().upper()
    assert k == "FE81D2162C9A100D04895C454A77515BBE6A431A935CB90E2221EBB7EF502328", k
    k = bytes(Sosemanuk(hexb("00112233445566778899AABBCCDDEEFF"), hexb("8899AABBCCDDEEFF0011223344556677")).packet([0] * 32)).hex().upper()
    assert k == "FA61DBEB71178131A77C714BD2EABF4E1394207A25698AA1308F2F063A0F7606", k
    return 2

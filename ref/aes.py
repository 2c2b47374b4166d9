"""AES-128 (FIPS-197), counter mode (SP 800-38A), 128-bit CFB and AEGIS-128 (CAESAR v1.1), from their definitions.
The S-box is computed (inverse in GF(2^8) and the affine map), not copied."""
from util import *


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 0x100:
            a ^= 0x11b
        b >>= 1
    return r


def _sbox():
    s = []
    for x in range(256):
        i = next((y for y in range(256) if gmul(x, y) == 1), 0)
        r = 0x63
        for k in range(5):
            r ^= ((i << k) | (i >> (8 - k))) & 255
        s.append(r)
    return s


SBOX = _sbox()
S2 = [gmul(2, e) for e in SBOX]
S3 = [gmul(3, e) for e in SBOX]


def sub(b):
    return tm.lut(SBOX, b, 8)


def expand(key):
    """44 words as 176 bytes"""
    w = [list(key[4 * i:4 * i + 4]) for i in range(4)]
    rc = 1
    for i in range(4, 44):
        t = w[i - 1]
        if i % 4 == 0:
            t = [sub(t[1]), sub(t[2]), sub(t[3]), sub(t[0])]
            t = [x8(t[0], rc)] + t[1:]
            rc = gmul(rc, 2)
        w.append(xb(w[i - 4], t))
    return [b for x in w for b in x]


def round_(s, k):
    """SubBytes, ShiftRows, MixColumns, AddRoundKey"""
    o = []
    for c in range(4):
        b = [s[4 * ((c + r) % 4) + r] for r in range(4)]
        for r in range(4):
            o.append(tm.xor([tm.lut(S2, b[r], 8), tm.lut(S3, b[(r + 1) % 4], 8), sub(b[(r + 2) % 4]), sub(b[(r + 3) % 4]), k[4 * c + r]], 8))
    return o


def last(s, k):
    return [x8(sub(s[4 * ((c + r) % 4) + r]), k[4 * c + r]) for c in range(4) for r in range(4)]


def encrypt_rk(rk, blk, skip=0):
    """skip: number of middle rounds left out, from the first on (their round keys are skipped as well)"""
    s = xb(blk, rk[:16])
    for i in range(1 + skip, 10):
        s = round_(s, rk[16 * i:16 * i + 16])
    return last(s, rk[160:176])


def encrypt(key, blk, skip=0):
    return encrypt_rk(expand(key), blk, skip)


class CTR:
    def __init__(self, key, nonce, ctr=1):
        self.rk = expand(key)
        self.nonce = list(nonce)
        self.ctr = ctr          # 32-bit integer or term

    def packet(self, data):
        out = []
        for i in range(0, len(data), 16):
            out += xb(data[i:i + 16], encrypt_rk(self.rk, self.nonce + tobe(self.ctr, 4)))
            self.ctr = add32(self.ctr, 1)
        return out


class CFB:
    def __init__(self, key, iv, skip=0):
        self.rk = expand(key)
        self.reg = list(iv)
        self.skip = skip

    def packet(self, data, dec):
        out = []
        for i in range(0, len(data), 16):
            d = data[i:i + 16]
            o = xb(d, encrypt_rk(self.rk, self.reg, self.skip))
            c = d if dec else o
            self.reg = (self.reg + c)[-16:]
            out += o
        return out


# ---------------------------------------------------------------- AEGIS-128
def _fib():
    a, b, l = 0, 1, []
    for _ in range(32):
        l.append(a & 255)
        a, b = b, a + b
    return l


FIB = _fib()
assert FIB[:9] == [0, 1, 1, 2, 3, 5, 8, 13, 21] and FIB[-1] == 0xdd
CONST0, CONST1 = FIB[:16], FIB[16:]


def up(S, m):
    return [round_(S[4], xb(S[0], m)), round_(S[0], S[1]), round_(S[1], S[2]), round_(S[2], S[3]), round_(S[3], S[4])]


def aegis_init(key, iv):
    S = [xb(key, iv), list(CONST1), list(CONST0), xb(key, CONST0), xb(key, CONST1)]
    for i in range(10):
        S = up(S, list(key) if i % 2 == 0 else xb(key, iv))
    return S


def pad(b):
    return list(b) + [0] * (-len(b) % 16)


def zks(S):
    return [tm.xor([a, b, tm.and_([c, d], 8)], 8) for a, b, c, d in zip(S[1], S[4], S[2], S[3])]


def aegis_ad(S, ad):
    p = pad(ad)
    for i in range(0, len(p), 16):
        S = up(S, p[i:i + 16])
    return S


def aegis_tag(S, adlen, msglen):
    t = xb(S[3], tole(adlen * 8, 8) + tole(msglen * 8, 8))
    for _ in range(7):
        S = up(S, t)
    return [tm.xor([s[k] for s in S], 8) for k in range(16)]


def aegis_encrypt(key, iv, ad, msg):
    S = aegis_ad(aegis_init(key, iv), ad)
    ct = []
    for i in range(0, len(msg), 16):
        m = msg[i:i + 16]
        ct += xb(m, zks(S))
        S = up(S, pad(m))
    return ct, aegis_tag(S, len(ad), len(msg))


def aegis_decrypt(key, iv, ad, ct):
    """plaintext and the tag that belongs to it"""
    S = aegis_ad(aegis_init(key, iv), ad)
    pt = []
    for i in range(0, len(ct), 16):
        p = xb(ct[i:i + 16], zks(S))
        pt += p
        S = up(S, pad(p))
    return pt, aegis_tag(S, len(ad), len(ct))


def selftest():
    n = 0
    def chk(got, want):
        nonlocal n
        assert bytes(got).hex() == want.replace(" ", ""), (bytes(got).hex(), want)
        n += 1
    chk(encrypt(list(range(16)), hexb("00112233445566778899aabbccddeeff")), "69c4e0d86a7b0430d8cdb78070b4c55a")
    chk(expand(hexb("2b7e151628aed2a6abf7158809cf4f3c"))[-16:], "d014f9a8c9ee2589e13f0cc8b6630ca6")
    # RFC 3686 test vector 2
    c = CTR(hexb("7E24067817FAE0D743D6CE1F32539163"), hexb("006CB6DBC0543B59DA48D90B"))
    chk(c.packet(list(range(32))), "5104a106168a72d9790d41ee8edad388eb2e1efc46da57c8fce630df9141be28")
    # SP 800-38A F.3.13/F.3.14 CFB128-AES128
    p = hexb("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51")
    c = "3b3fd92eb72dad20333449f8e83cfb4ac8a64537a0b3a93fcde3cdad9f1ce58b"
    k, iv = hexb("2b7e151628aed2a6abf7158809cf4f3c"), list(range(16))
    chk(CFB(k, iv).packet(p, 0), c)
    chk(CFB(k, iv).packet(hexb(c), 1), bytes(p).hex())
    # AEGIS-128 vectors of the CAESAR submission
    ct, tag = aegis_encrypt([0] * 16, [0] * 16, [], [0] * 16)
    chk(ct, "951b050fa72b1a2fc16d2e1f01b07d7e"); chk(tag, "a7d2a99773249542f422217ee888d5f1")
    ct, tag = aegis_encrypt([0] * 16, [0] * 16, [0] * 16, [0] * 16)
    chk(ct, "10b0dee65a97d751205c128a992473a1"); chk(tag, "46dcb9ee93c46cf13731d41b9646c131")
    ct, tag = aegis_encrypt([0, 1] + [0] * 14, [0, 0, 2] + [0] * 13, [0, 1, 2, 3], [0] * 16)
    chk(ct, "2b78f5c1618da39afbb2920f5dae02b0"); chk(tag, "74759cd0e19314650d6c635b563d80fd")
    ct, tag = aegis_encrypt([0x10, 1] + [0] * 14, [0x10, 0, 2] + [0] * 13, list(range(8)), list(range(32)))
    chk(ct, "e08ec10685d63c7364eca78ff6e1a1dd fdfc15d5311a7f2988a0471a13973fd7".replace(" ", ""))
    chk(tag, "27e84b6c4cc46cb6ece8f1f3e4aa0e78")
    return n

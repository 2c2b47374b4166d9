"""Rabbit (RFC 4503 / eSTREAM), octet strings read in little-endian order."""
from util import *

A = [0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3, 0x34D34D34, 0x4D34D34D, 0xD34D34D3]


def w16(hi, lo):
    return tm.cat([(lo, 16), (hi, 16)])


def g(u, v):
    s = add32(u, v)
    sq = tm.mul(tm.zext(s, 32, 64), tm.zext(s, 32, 64), 64)
    return xor32(tm.ext(sq, 0, 32), tm.ext(sq, 32, 32))


class Rabbit:
    def __init__(self, key, iv=None):
        k = [le(key[2 * i:2 * i + 2]) for i in range(8)]
        X, C = [0] * 8, [0] * 8
        for j in range(8):
            if j % 2 == 0:
                X[j] = w16(k[(j + 1) % 8], k[j]); C[j] = w16(k[(j + 4) % 8], k[(j + 5) % 8])
            else:
                X[j] = w16(k[(j + 5) % 8], k[(j + 4) % 8]); C[j] = w16(k[j], k[(j + 1) % 8])
        self.X, self.C, self.b = X, C, 0
        for _ in range(4):
            self.step()
        self.C = [xor32(self.C[j], self.X[(j + 4) % 8]) for j in range(8)]
        self.master = (list(self.X), list(self.C), self.b)
        if iv is not None:
            self.load_iv(iv)

    def load_iv(self, iv):
        self.X, self.C, self.b = list(self.master[0]), list(self.master[1]), self.master[2]
        i = [le(iv[2 * j:2 * j + 2]) for j in range(4)]
        m = [w16(i[1], i[0]), w16(i[3], i[1]), w16(i[3], i[2]), w16(i[2], i[0])]
        self.C = [xor32(c, m[j % 4]) for j, c in enumerate(self.C)]
        for _ in range(4):
            self.step()

    def step(self):
        for j in range(8):
            t = tm.add_n([(1, x) for x in (tm.zext(self.C[j], 32, 33), tm.zext(self.b, 1, 33)) if x.__class__ is T],
                         A[j] + sum(x for x in (self.C[j], self.b) if x.__class__ is int), 33)
            self.b = tm.ext(t, 32, 1)
            self.C[j] = tm.ext(t, 0, 32)
        G = [g(x, c) for x, c in zip(self.X, self.C)]
        X = [0] * 8
        for j in range(8):
            if j % 2 == 0:
                X[j] = add32(G[j], rotl32(G[(j - 1) % 8], 16), rotl32(G[(j - 2) % 8], 16))
            else:
                X[j] = add32(G[j], rotl32(G[(j - 1) % 8], 8), G[(j - 2) % 8])
        self.X = X

    def block(self):
        self.step()
        X = self.X
        lo = lambda v: tm.ext(v, 0, 16)
        hi = lambda v: tm.ext(v, 16, 16)
        x = lambda a, b: tm.xor([a, b], 16)
        s = []
        for j in range(0, 8, 2):
            s.append(x(lo(X[j]), hi(X[(j + 5) % 8])))
            s.append(x(hi(X[j]), lo(X[(j + 3) % 8])))
        return [b for v in s for b in (tm.ext(v, 0, 8), tm.ext(v, 8, 8))]

    def packet(self, data):
        out = []
        for i in range(0, len(data), 16):
            out += xb(data[i:i + 16], self.block())
        return out


def selftest():
    # RFC 4503 appendix A gives octet strings in big-endian order: reverse them
    def ks(k, iv, n):
        r = Rabbit(hexb(k)[::-1], hexb(iv)[::-1] if iv else None)
        return [bytes(r.block()[::-1]).hex().upper() for _ in range(n)]
    assert ks("0" * 32, "", 3) == ["B15754F036A5D6ECF56B45261C4AF702", "88E8D815C59C0C397B696C4789C68AA7", "F416A1C3700CD451DA68D1881673D696"]
    assert ks("912813292E3D36FE3BFC62F1DC51C3AC", "", 1) == ["3D2DF3C83EF627A1E97FC38487E2519C"]
    assert ks("8395741587E0C733E9E9AB01C09B0043", "", 1) == ["0CB10DCDA041CDAC32EB5CFD02D0609B"]
    assert ks("0" * 32, "0" * 16, 1) == ["C6A7275EF85495D87CCD5D376705B7ED"]
    assert ks("0" * 32, "C373F575C1267E59", 1) == ["1FCD4EB9580012E2E0DCCC9222017D6D"], ks("0" * 32, "C373F575C1267E59", 1)
    assert ks("0" * 32, "A6EB561AD2F41727", 1) == ["445AD8C805858DBF70B6AF23A151104D"]
    return 6

"""HC-128 as in the eSTREAM submission of Hongjun Wu."""
from util import *


def f1(x):
    return xor32(rotr32(x, 7), rotr32(x, 18), shr32(x, 3))


def f2(x):
    return xor32(rotr32(x, 17), rotr32(x, 19), shr32(x, 10))


def g1(x, y, z):
    return add32(xor32(rotr32(x, 10), rotr32(z, 23)), rotr32(y, 8))


def g2(x, y, z):
    return add32(xor32(rotl32(x, 10), rotl32(z, 23)), rotl32(y, 8))


def h(tab, x):
    return add32(tm.select(tab[:256], tm.ext(x, 0, 8), 32), tm.select(tab[256:], tm.ext(x, 16, 8), 32))


class HC128:
    def __init__(self, key, iv):
        k = [le(key[4 * i:4 * i + 4]) for i in range(4)]
        v = [le(iv[4 * i:4 * i + 4]) for i in range(4)]
        W = k + k + v + v
        for i in range(16, 1280):
            W.append(add32(f2(W[i - 2]), W[i - 7], f1(W[i - 15]), W[i - 16], i))
        self.P, self.Q = W[256:768], W[768:1280]
        for i in range(512):
            P = self.P
            P[i] = xor32(add32(P[i], g1(P[i - 3], P[i - 10], P[(i - 511) % 512])), h(self.Q, P[i - 12]))
        for i in range(512):
            Q = self.Q
            Q[i] = xor32(add32(Q[i], g2(Q[i - 3], Q[i - 10], Q[(i - 511) % 512])), h(self.P, Q[i - 12]))
        self.i = 0

    def word(self):
        j = self.i % 512
        if self.i % 1024 < 512:
            P = self.P
            P[j] = add32(P[j], g1(P[j - 3], P[j - 10], P[(j - 511) % 512]))
            s = xor32(h(self.Q, P[j - 12]), P[j])
        else:
            Q = self.Q
            Q[j] = add32(Q[j], g2(Q[j - 3], Q[j - 10], Q[(j - 511) % 512]))
            s = xor32(h(self.P, Q[j - 12]), Q[j])
        self.i += 1
        return s

    def packet(self, data):
        ks = [b for _ in range((len(data) + 3) // 4) for b in tole(self.word(), 4)]
        return xb(data, ks)


def selftest():
    # vectors of the submission
    k = bytes(HC128([0] * 16, [0] * 16).packet([0] * 32)).hex()
    assert k == "82001573a003fd3b7fd72ffb0eaf63aac62f12deb629dca72785a66268ec758b", k
    k = bytes(HC128([0] * 16, [1] + [0] * 15).packet([0] * 32)).hex()
    assert k == "d59318c058e9dbb798ec658f046617642467fc36ec6e2cc8a7381c1b952ab4c9", k
    k = bytes(HC128([0x55] + [0] * 15, [0] * 16).packet([0] * 32)).hex()
    assert k == "a45182510a93b40431f92ab032f039067aa4b4bc0b482257729ff92b66e5c0cd", k
    return 3

"""SHA-256 (FIPS 180-4; constants computed from the primes) and HMAC (RFC 2104)."""
from util import *


def _primes(n):
    l, k = [], 2
    while len(l) < n:
        if all(k % p for p in l):
            l.append(k)
        k += 1
    return l


def _iroot(v, n):
    lo, hi = 0, 1 << 80
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** n <= v:
            lo = m
        else:
            hi = m - 1
    return lo


PR = _primes(64)
K = [_iroot(p << 96, 3) & 0xffffffff for p in PR]
H0 = [_iroot(p << 64, 2) & 0xffffffff for p in PR[:8]]


def ch(x, y, z):
    return xor32(and32(x, y), and32(not32(x), z))


def maj(x, y, z):
    return xor32(and32(x, y), and32(x, z), and32(y, z))


def compress(H, blk):
    W = [be(blk[4 * i:4 * i + 4]) for i in range(16)]
    for t in range(16, 64):
        x, y = W[t - 2], W[t - 15]
        W.append(add32(xor32(rotr32(x, 17), rotr32(x, 19), shr32(x, 10)), W[t - 7],
                       xor32(rotr32(y, 7), rotr32(y, 18), shr32(y, 3)), W[t - 16]))
    a, b, c, d, e, f, g, h = H
    for t in range(64):
        t1 = add32(h, xor32(rotr32(e, 6), rotr32(e, 11), rotr32(e, 25)), ch(e, f, g), K[t], W[t])
        t2 = add32(xor32(rotr32(a, 2), rotr32(a, 13), rotr32(a, 22)), maj(a, b, c))
        a, b, c, d, e, f, g, h = add32(t1, t2), a, b, c, add32(d, t1), e, f, g
    return [add32(x, y) for x, y in zip(H, (a, b, c, d, e, f, g, h))]


def sha256(m):
    p = list(m) + [0x80]
    p += [0] * ((56 - len(p)) % 64) + list((8 * len(m)).to_bytes(8, "big"))
    H = list(H0)
    for i in range(0, len(p), 64):
        H = compress(H, p[i:i + 64])
    return [b for w in H for b in tobe(w, 4)]


def hmac(key, m):
    k = list(key)
    if len(k) > 64:
        k = sha256(k)
    k = k + [0] * (64 - len(k))
    return sha256([x8(b, 0x5c) for b in k] + sha256([x8(b, 0x36) for b in k] + list(m)))


def selftest():
    import hashlib
    import hmac as H
    for n in (0, 3, 55, 56, 63, 64, 119, 120, 200):
        m = bytes((7 * i + n) & 255 for i in range(n))
        assert bytes(sha256(m)) == hashlib.sha256(m).digest()
    for k, n in ((0, 0), (20, 8), (64, 1), (65, 30), (131, 54)):
        kk, m = bytes(range(k)), bytes(range(n))
        assert bytes(hmac(kk, m)) == H.new(kk, m, "sha256").digest()
    assert bytes(sha256(b"abc")).hex() == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
    return 15

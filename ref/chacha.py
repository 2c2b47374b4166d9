"""ChaCha20 of RFC 7539 (block function 2.3, encryption 2.4 with initial counter 1)."""
from util import *

CONST = le(list(b"expa")), le(list(b"nd 3")), le(list(b"2-by")), le(list(b"te k"))


def quarter(s, a, b, c, d):
    s[a] = add32(s[a], s[b]); s[d] = rotl32(xor32(s[d], s[a]), 16)
    s[c] = add32(s[c], s[d]); s[b] = rotl32(xor32(s[b], s[c]), 12)
    s[a] = add32(s[a], s[b]); s[d] = rotl32(xor32(s[d], s[a]), 8)
    s[c] = add32(s[c], s[d]); s[b] = rotl32(xor32(s[b], s[c]), 7)


def block_words(key, nonce, counter, rounds=20):
    init = list(CONST) + [le(key[4 * i:4 * i + 4]) for i in range(8)] + [counter] + [le(nonce[4 * i:4 * i + 4]) for i in range(3)]
    s = list(init)
    for _ in range(rounds // 2):
        quarter(s, 0, 4, 8, 12); quarter(s, 1, 5, 9, 13); quarter(s, 2, 6, 10, 14); quarter(s, 3, 7, 11, 15)
        quarter(s, 0, 5, 10, 15); quarter(s, 1, 6, 11, 12); quarter(s, 2, 7, 8, 13); quarter(s, 3, 4, 9, 14)
    return [add32(a, b) for a, b in zip(s, init)]


def block(key, nonce, counter, rounds=20):
    return [b for w in block_words(key, nonce, counter, rounds) for b in tole(w, 4)]


def encrypt(key, nonce, data, rounds=20, counter=1):
    out = []
    for i in range(0, len(data), 64):
        out += xb(data[i:i + 64], block(key, nonce, (counter + i // 64) & 0xffffffff, rounds))
    return out


def selftest():
    k = list(range(32))
    n = hexb("000000090000004a00000000")
    assert bytes(block(k, n, 1)).hex() == ("10f1e7e4d13b5915500fdd1fa32071c4c7d1f4c733c068030422aa9ac3d46c4e"
                                           "d2826446079faa0914c2d705d98b02a2b5129cd1de164eb9cbd083e8a2503c4e")
    n = hexb("000000000000004a00000000")
    m = list(b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.")
    c = bytes(encrypt(k, n, m)).hex()
    assert c.startswith("6e2e359a2568f98041ba0728dd0d6981e97e7aec1d4360c20a27afccfd9fae0b")
    assert c.endswith("5af90bbf74a35be6b40b8eedf2785e42874d")
    return 2

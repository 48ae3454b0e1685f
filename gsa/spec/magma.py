"""GOST R 34.12-2015, n = 64."""


def t(a):
    v = 0
    for i in range(8):
        v |= SIGMA[i][(a >> (4 * i)) & 15] << (4 * i)
    return v


def g(k, a):
    v = t((a + k) & 0xffffffff)
    return ((v << 11) | (v >> 21)) & 0xffffffff


def round_keys(key):
    k = [int.from_bytes(key[4 * i:4 * i + 4], 'big') for i in range(8)]
    return k + k + k + k[::-1]


def run(keys, block):
    a1 = int.from_bytes(block[:4], 'big')
    a0 = int.from_bytes(block[4:], 'big')
    for i in range(31):
        a1, a0 = a0, g(keys[i], a0) ^ a1
    a1 = g(keys[31], a0) ^ a1
    return a1.to_bytes(4, 'big') + a0.to_bytes(4, 'big')


def encrypt(keys, block):
    return run(keys, block)


def decrypt(keys, block):
    return run(keys[::-1], block)

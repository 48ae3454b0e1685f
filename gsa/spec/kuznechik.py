"""GOST R 34.12-2015, n = 128 (block and key are byte sequences)."""

COEF = (148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148, 1)


def gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a <<= 1
        if a & 256:
            a ^= 0x1c3
        b >>= 1
    return r


MUL = {}
for _c in set(COEF):
    MUL[_c] = tuple([gmul(_x, _c) for _x in range(256)])


def xor(a, b):
    return [x ^ y for x, y in zip(a, b)]


def s(a):
    return [PI[x] for x in a]


def s_inv(a):
    return [PI_INV[x] for x in a]


def r(a):
    t = 0
    for i in range(16):
        t = t ^ MUL[COEF[i]][a[i]]
    return [t] + a[:15]


def r_inv(a):
    b = a[1:] + [a[0]]
    t = 0
    for i in range(16):
        t = t ^ MUL[COEF[i]][b[i]]
    return a[1:] + [t]


def l(a):
    for _ in range(16):
        a = r(a)
    return a


def l_inv(a):
    for _ in range(16):
        a = r_inv(a)
    return a


CONST = [l([0] * 15 + [i]) for i in range(1, 33)]


def round_keys(key):
    a, b = list(key[:16]), list(key[16:])
    out = [a, b]
    for i in range(4):
        for j in range(8):
            a, b = xor(l(s(xor(a, CONST[8 * i + j]))), b), a
        out.append(a)
        out.append(b)
    return out


def encrypt(keys, block):
    a = list(block)
    for i in range(9):
        a = l(s(xor(a, keys[i])))
    return bytes(xor(a, keys[9]))


def decrypt(keys, block):
    a = xor(list(block), keys[9])
    for i in range(8, -1, -1):
        a = xor(s_inv(l_inv(a)), keys[i])
    return bytes(a)

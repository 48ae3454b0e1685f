"""GOST R 34.11-2012; byte 0 of every vector is its least significant byte."""


def rows():
    # L on one 64-bit word, as eight tables of one byte each
    out = []
    for j in range(8):
        t = []
        for x in range(256):
            v = 0
            for b in range(8):
                if (x >> b) & 1:
                    v ^= A[63 - (8 * j + b)]
            t.append(v)
        out.append(tuple(t))
    return out


T = rows()


def xor(a, b):
    return [x ^ y for x, y in zip(a, b)]


def lps(a):
    b = [PI[x] for x in a]
    p = [b[8 * (i % 8) + i // 8] for i in range(64)]
    out = []
    for i in range(8):
        v = 0
        for j in range(8):
            v ^= T[j][p[8 * i + j]]
        for j in range(8):
            out.append((v >> (8 * j)) & 255)
    return out


def g(n, h, m):
    k = lps(xor(h, n))
    t = list(m)
    for i in range(12):
        t = lps(xor(k, t))
        k = lps(xor(k, C[i]))
    return xor(xor(xor(t, k), h), m)


def add512(a, b):
    s = (int.from_bytes(bytes(a), 'little') + int.from_bytes(bytes(b), 'little')) % 2 ** 512
    return list(s.to_bytes(64, 'little'))


def start(bits):
    return ([1] * 64 if bits == 256 else [0] * 64, [0] * 64, [0] * 64)


def block(state, m):
    h, n, sig = state
    h = g(n, h, m)
    n = add512(n, [0, 2] + [0] * 62)
    sig = add512(sig, m)
    return (h, n, sig)


def final(state, tail, bits):
    h, n, sig = state
    tail = list(tail)
    ln = 8 * len(tail)
    m = tail + [1] + [0] * (63 - len(tail))
    h = g(n, h, m)
    n = add512(n, [ln & 255, ln >> 8] + [0] * 62)
    sig = add512(sig, m)
    h = g([0] * 64, h, n)
    h = g([0] * 64, h, sig)
    return bytes(h[32:]) if bits == 256 else bytes(h)


def digest(msg, bits):
    st = start(bits)
    msg = list(msg)
    i = 0
    while len(msg) - i >= 64:
        st = block(st, msg[i:i + 64])
        i += 64
    return final(st, msg[i:], bits)

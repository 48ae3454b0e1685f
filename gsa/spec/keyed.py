"""R 50.1.113-2016, R 50.1.111-2016, R 1323565.1.006-2017 over a hash H."""


def xor(a, b):
    return bytes([x ^ y for x, y in zip(a, b)])


def hmac(H, key, msg):
    k = key + bytes(64 - len(key))
    inner = bytes(H(xor(k, b'\x36' * 64) + msg))
    return bytes(H(xor(k, b'\x5c' * 64) + inner))


def pbkdf(H, pw, salt, count, n):
    out = b''
    i = 1
    while len(out) < n:
        u = hmac(H, pw, salt + i.to_bytes(4, 'big'))
        t = u
        for _ in range(count - 1):
            u = hmac(H, pw, u)
            t = xor(t, u)
        out = out + t
        i += 1
    return out[:n]


def step(H, state):
    """One block from the (seed || counter) register of 63 bytes."""
    v = (int.from_bytes(state, 'big') + 1).to_bytes(63, 'big')
    return v, bytes(H(v))


def random(H, state, n):
    out = b''
    for _ in range(n // 64):
        state, b = step(H, state)
        out = out + b
    if n % 64:
        state, b = step(H, state)
        out = out + b[64 - n % 64:]
    return state, out

"""GOST R 34.13-2015 over a block cipher given as functions E and D."""


def xor(a, b):
    return bytes([x ^ y for x, y in zip(a, b)])


def blocks(data, n):
    return [data[i:i + n] for i in range(0, len(data), n)]


def pad(data, n, size):
    """Procedure 1 (size zero bytes)."""
    return data + bytes(size)


def pad2(data, n, size):
    return data + b'\x80' + bytes(size - 1)


def ecb(E, data, n):
    out = b''
    for b in blocks(data, n):
        out = out + bytes(E(b))
    return out


def cbc_enc(E, D, iv, data, n):
    reg, out = iv, b''
    for b in blocks(data, n):
        c = bytes(E(xor(b, reg[:n])))
        out = out + c
        reg = reg[n:] + c
    return out, reg


def cbc_dec(E, D, iv, data, n):
    reg, out = iv, b''
    for b in blocks(data, n):
        out = out + xor(bytes(D(b)), reg[:n])
        reg = reg[n:] + b
    return out, reg


def cfb_enc(E, D, iv, data, n):
    reg, out = iv, b''
    for b in blocks(data, n):
        c = xor(b, bytes(E(reg[:n])))
        out = out + c
        if len(b) == n:
            reg = reg[n:] + c
    return out, reg


def cfb_dec(E, D, iv, data, n):
    reg, out = iv, b''
    for b in blocks(data, n):
        out = out + xor(b, bytes(E(reg[:n])))
        if len(b) == n:
            reg = reg[n:] + b
    return out, reg


def ofb(E, D, iv, data, n):
    reg, out = iv, b''
    for b in blocks(data, n):
        g = bytes(E(reg[:n]))
        out = out + xor(b, g)
        if len(b) == n:
            reg = reg[n:] + g
    return out, reg


def inc(ctr, n):
    v = (int.from_bytes(ctr, 'big') + 1) % (2 ** (8 * n))
    return v.to_bytes(n, 'big')


def ctr(E, D, cnt, data, n):
    out = b''
    for b in blocks(data, n):
        out = out + xor(b, bytes(E(cnt)))
        cnt = inc(cnt, n)
    return out, cnt


def double(v, n):
    x = int.from_bytes(v, 'big')
    r = 0x87 if n == 16 else 0x1b
    y = (x << 1) & (2 ** (8 * n) - 1)
    top = x >> (8 * n - 1)
    return (y ^ (r * top)).to_bytes(n, 'big')


def mac(E, msg, n):
    k1 = double(bytes(E(bytes(n))), n)
    k2 = double(k1, n)
    bl = blocks(msg, n)
    if not bl:
        bl = [b'']
    c = bytes(n)
    for b in bl[:-1]:
        c = bytes(E(xor(c, b)))
    last = bl[-1]
    if len(last) == n:
        last = xor(last, k1)
    else:
        last = xor(last + b'\x80' + bytes(n - 1 - len(last)), k2)
    return bytes(E(xor(last, c)))

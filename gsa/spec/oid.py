"""DER encoding of an object identifier (X.690, 8.19)."""


def arc(v, n):
    """Base-128 digits of v, which has exactly n of them."""
    out = b''
    for i in range(n - 1, -1, -1):
        d = (v >> (7 * i)) & 0x7f
        if i:
            d = d | 0x80
        out = out + bytes([d])
    return out


def length(n):
    if n < 128:
        return bytes([n])
    k = 0
    m = n
    body = b''
    while m:
        body = bytes([m & 255]) + body
        m >>= 8
        k += 1
    return bytes([0x80 + k]) + body


def der(arcs, sizes):
    """arcs: all arcs; sizes: number of base-128 digits of the first combined arc and of each later one."""
    body = arc(40 * arcs[0] + arcs[1], sizes[0])
    for a, n in zip(arcs[2:], sizes[1:]):
        body = body + arc(a, n)
    return b'\x06' + length(len(body)) + body

# GOST R 34.10-2012, formation of the signature from the point x coordinate.


def number(b):
    r = 0
    for x in b:
        r = r * 256 + x
    return r


def hashed(digest, q):
    e = int.from_bytes(digest, 'big') % q
    if e == 0:
        e = 1
    return e


def signature(x, d, digest, k, q, size):
    r = x % q
    s = (r * int.from_bytes(d, 'big') + k * hashed(digest, q)) % q
    return r.to_bytes(size, 'big') + s.to_bytes(size, 'big')

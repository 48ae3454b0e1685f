# GOST R 34.10-2012, verification of the signature.


def hashed(digest, q):
    e = int.from_bytes(digest, 'big') % q
    if e == 0:
        e = 1
    return e


def outside(r, s, q):
    return not (0 < r < q and 0 < s < q)


def coefficients(r, s, digest, q, inv):
    v = inv(hashed(digest, q))
    return s * v % q, -r * v % q


def verdicts(x, r, q, size):
    R = x % q
    return R == r, R.to_bytes(size, 'big') == r.to_bytes(size, 'big'), (R - r) % q == 0


def not_on_curve(x, y, p, a, b):
    if x >= p or y >= p:
        return True
    return (y * y - x * x * x - a * x - b) % p != 0

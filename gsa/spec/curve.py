# Conditions on the parameters of the curve (GOST R 34.10-2012, 5.2).


def violated(p, a, b, m, q, x, y, lo, hi):
    if m == p:
        return 'm equals p'
    if (y * y - (x * x * x + a * x + b)) % p != 0:
        return 'the base point is not on the curve'
    if q < 2 ** lo or q > 2 ** hi:
        return 'q is out of range'
    return ''

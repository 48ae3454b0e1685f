"""Unbounded integers: polynomials over canonical integer atoms, with modular
reduction and inverses as normalised atoms (Herbrand terms modulo Z[x] and Z/m).

A polynomial is a tuple of (monomial, coefficient) pairs sorted by monomial; a
monomial is a sorted tuple of atom numbers (with repetition).
"""
from . import forms as F

ZKEYS = []
ZINDEX = {}
ZRANGE = []     # (lo, hi), None = unbounded


def zatom(key, lo=None, hi=None):
    i = ZINDEX.get(key)
    if i is None:
        i = len(ZKEYS)
        ZINDEX[key] = i
        ZKEYS.append(key)
        ZRANGE.append((lo, hi))
    return (((i,), 1),)


def const(c):
    return (((), c),) if c else ()


def as_const(p):
    if p == ():
        return 0
    if len(p) == 1 and p[0][0] == ():
        return p[0][1]
    return None


def norm(d):
    return tuple(sorted((m, c) for m, c in d.items() if c))


def add(p, q, k=1):
    d = dict(p)
    for m, c in q:
        d[m] = d.get(m, 0) + k * c
    return norm(d)


def sub(p, q):
    return add(p, q, -1)


def neg(p):
    return tuple((m, -c) for m, c in p)


def mul(p, q):
    d = {}
    for m, c in p:
        for n, e in q:
            k = tuple(sorted(m + n))
            d[k] = d.get(k, 0) + c * e
    return norm(d)


def power(p, n):
    r = const(1)
    for _ in range(n):
        r = mul(r, p)
    return r


def interval(p):
    if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
        return ZRANGE[p[0][0][0]]
    lo = hi = 0
    for m, c in p:
        a, b = 1, 1
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            l, h = ZRANGE[m[i]]
            e = j - i
            if e % 2 == 0 and (l is None or l < 0):
                # even power
                mx = None if (l is None or h is None) else max(abs(l), abs(h)) ** e
                l2, h2 = 0, mx
            else:
                l2 = None if l is None else l ** e
                h2 = None if h is None else h ** e
            a, b = _imul(a, b, l2, h2)
            i = j
        a, b = _imul(a, b, c, c)
        lo = None if lo is None or a is None else lo + a
        hi = None if hi is None or b is None else hi + b
    return lo, hi


def _imul(a, b, c, d):
    if a is not None and b is not None and c is not None and d is not None:
        v = [a * c, a * d, b * c, b * d]
        return min(v), max(v)
    # partially unbounded: only handle the non-negative case
    if a is not None and a >= 0 and c is not None and c >= 0:
        lo = a * c
        hi = None
        if (b == 0) or (d == 0):
            return 0, 0
        return lo, hi
    if c is not None and c == d:
        if c == 0:
            return 0, 0
        if c > 0:
            return (None if a is None else a * c), (None if b is None else b * c)
        return (None if b is None else b * c), (None if a is None else a * c)
    if a is not None and a == b:
        return _imul(c, d, a, b)
    return None, None


_REWRITES = []        # hooks: f(poly, modpoly) -> poly or None
_REDUCE = []          # hooks: f(poly, modpoly) -> poly


def strip(p, m):
    """Replace atoms congruent to something simpler modulo m."""
    changed = True
    while changed:
        changed = False
        out = {}
        for mono, c in p:
            hit = None
            for a in mono:
                k = ZKEYS[a]
                if k[0] == 'mod' and k[2] == m:
                    hit = (a, k[1])
                elif k[0] == 'bez' and k[2] == m:
                    hit = (a, inv(k[1], m))
                elif k[0] == 'zmux':
                    s, t = strip(k[2], m), strip(k[3], m)
                    if reduce_coefs(sub(s, t), m) == ():
                        hit = (a, t)
                if hit:
                    break
            if hit:
                changed = True
                rest = list(mono)
                rest.remove(hit[0])
                for mm, cc in mul(((tuple(rest), c),), hit[1]):
                    out[mm] = out.get(mm, 0) + cc
            else:
                out[mono] = out.get(mono, 0) + c
        p = norm(out)
    return p


def reduce_coefs(p, m):
    mc = as_const(m)
    if mc is None:
        # drop multiples of the (single-monomial) modulus
        if len(m) == 1 and m[0][1] == 1 and len(m[0][0]) == 1:
            a = m[0][0][0]
            return tuple((mm, c) for mm, c in p if a not in mm)
        return p
    if mc == 0:
        raise ZeroDivisionError
    return norm({mm: c % mc for mm, c in p})


def canon_mod(p, m):
    p = strip(p, m)
    for rd in _REDUCE:
        p = rd(p, m)
    return reduce_coefs(p, m)


def mod(p, m):
    mc = as_const(m)
    pc = as_const(p)
    if mc == 0:
        raise ZeroDivisionError
    if mc is not None and pc is not None:
        return const(pc % mc)
    lo, hi = interval(p)
    if mc is not None and mc > 0 and lo is not None and hi is not None and lo >= 0 and hi < mc:
        return p
    q = canon_mod(p, m)
    for rw in _REWRITES:
        r = rw(q, m)
        if r is not None:
            return r
    qc = as_const(q)
    if qc is not None and mc is not None:
        return const(qc % mc)
    lo, hi = interval(q)
    if mc is not None and mc > 0 and lo is not None and hi is not None and lo >= 0 and hi < mc:
        return q
    mlo, mhi = interval(m)
    if len(q) == 1 and q[0][1] == 1 and len(q[0][0]) == 1:
        k = ZKEYS[q[0][0][0]]
        if k[0] == 'inv' and k[2] == m:
            return q
    return zatom(('mod', q, m), 0, None if mhi is None else mhi - 1)


def inv(p, m):
    """Modular inverse of p modulo m as a canonical atom."""
    p = canon_mod(p, m)
    mc = as_const(m)
    pc = as_const(p)
    if pc is not None and mc is not None:
        if pc % mc == 0:
            return ()
        try:
            return const(pow(pc, -1, mc))
        except ValueError:
            return zatom(('inv', p, m), 0, mc - 1)
    mhi = interval(m)[1]
    hi = None if mhi is None else mhi - 1
    if len(p) == 1 and len(p[0][0]) == 1 and p[0][1] == 1:
        k = ZKEYS[p[0][0][0]]
        if k[0] == 'inv' and k[2] == m:
            return k[1]
    if mc is not None:
        lead = p[0][1]
        try:
            li = pow(lead, -1, mc)
        except ValueError:
            li = None
        if li is not None and lead != 1:
            q = norm({mm: c * li % mc for mm, c in p})
            return mul(const(li), zatom(('inv', q, m), 0, hi))
    elif p and p[0][1] < 0:
        return neg(zatom(('inv', neg(p), m), 0, hi))
    return zatom(('inv', p, m), 0, hi)


def floordiv(p, m):
    mc, pc = as_const(m), as_const(p)
    if mc == 0:
        raise ZeroDivisionError
    if mc is not None and pc is not None:
        return const(pc // mc)
    if mc == 1:
        return p
    lo, hi = interval(p)
    l = h = None
    if mc is not None and mc > 0:
        l = None if lo is None else lo // mc
        h = None if hi is None else hi // mc
        if l == h and l is not None:
            return const(l)
    return zatom(('fdiv', p, m), l, h)


def zatoms_in(p, seen=None):
    """All atom numbers p depends on, transitively."""
    if seen is None:
        seen = set()
    for m, _ in p:
        for a in m:
            _close(a, seen)
    return seen


def _is_poly(x):
    return isinstance(x, tuple) and all(
        isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple) and isinstance(t[1], int)
        and all(isinstance(y, int) for y in t[0]) for t in x)


def _close(a, seen):
    if a in seen:
        return
    seen.add(a)
    k = ZKEYS[a]
    for part in k[1:]:
        if isinstance(part, tuple) and k[0] in ('mod', 'inv', 'fdiv', 'bez', 'zmux') and _is_poly(part):
            zatoms_in(part, seen)


def show(p, depth=0):
    if p == ():
        return '0'
    out = []
    for m, c in p[:6]:
        t = '*'.join(show_atom(a, depth + 1) for a in m)
        cs = hex(c) if abs(c) > 10**6 else str(c)
        out.append(t if c == 1 and m else (cs + ('*' + t if t else '')))
    if len(p) > 6:
        out.append('...')
    return ' + '.join(out)


def show_atom(a, depth=0):
    k = ZKEYS[a]
    if depth > 4:
        return '@%d' % a
    if k[0] == 'sym':
        return k[1]
    if k[0] in ('mod', 'inv', 'fdiv'):
        ms = show(k[2], depth + 1)
        if len(ms) > 14:
            ms = ms[:6] + '..'
        return '%s(%s, %s)' % (k[0], show(k[1], depth + 1), ms)
    if k[0] == 'pt':
        return '%s[%s]' % (k[1], k[2])
    if k[0] == 'zb':
        return 'int<%s>' % show_bits(k[1])
    return '%s@%d' % (k[0], a)


def show_bits(bits):
    names = []
    for f in bits:
        for i in F.atoms_of(f):
            k = F.KEYS[i]
            n = k[1] if k[0] == 'in' else k[0]
            if n not in names:
                names.append(n)
        if len(names) > 3:
            break
    return ','.join(str(n) for n in names[:4]) + ':%d' % len(bits)


def mark():
    return len(ZKEYS)


def rollback(n):
    for k in ZKEYS[n:]:
        del ZINDEX[k]
    del ZKEYS[n:], ZRANGE[n:]


def reset():
    rollback(0)

"""The table of curves is read from the source by constant propagation and every
entry is judged: p and q are prime (Miller-Rabin to 64 bases), the curve is
nonsingular, the base point is a reduced point of it of order exactly q, m is the
multiple of q in the Hasse interval, m differs from p, p^i differs from 1 modulo
q up to the bound of the standard, q lies in the range of the signature size.
Where Edwards parameters are given they are mapped to the canonical form by the
definition and compared with the stored values; the constructor is then analysed
with the Edwards parameters alone, and the public keys of 1 and 2 of the object
are compared with the base point and its double.  Every entry is accepted by the
constructor for its size.  The values are compared with R 1323565.1.024-2019."""
import random
from ..common import *
from .. import group as G
from ..spec.curves import CURVES
from . import sigmodel as SG

ASSUMPTIONS = ['primality is decided by Miller-Rabin with 64 fixed random bases']


def prime(n):
    if n < 2 or n % 2 == 0:
        return n == 2
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    r = random.Random(n)
    for _ in range(64):
        x = pow(r.randrange(2, n - 1), d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def values(ctx, name):
    t = ctx.it.payload(SG.table(ctx, name))
    if any(not isinstance(v, int) for v in t.values()):
        raise Unsupported('the table holds values that are not integers')
    return dict(t)


def size_in(name):
    return 64 if '512' in name else 32


def table_where(ctx):
    import ast
    m = ctx.mod('gostsignature')
    for mod in ctx.it.modules.values():
        tree = getattr(mod, 'tree', None)
        if tree is None or 'gostsignature' not in mod.name:
            continue
        for st in tree.body:
            for t in ([st.target] if isinstance(st, ast.AnnAssign) else getattr(st, 'targets', [])):
                if isinstance(t, ast.Name) and t.id == 'CURVES_R_1323565_1_024_2019':
                    return '%s:%d (%s)' % ((mod.path or mod.name).replace(ctx.it.root + '/', ''), st.lineno, t.id)
    return 'CURVES_R_1323565_1_024_2019'


def sound(name):
    def run(ctx):
        v = values(ctx, name)
        size = size_in(name)
        w = table_where(ctx)
        bad = lambda t: ctx.fail('%s: %s' % (name, t), w)
        c = dict(dict(p=1, a=0, b=0, m=1, q=1, x=0, y=0), **v)
        p, q = c['p'], c['q']
        if not prime(p):
            bad('p is not prime')
            return
        if not prime(q):
            bad('q is not prime')
            return
        if 'e' in v or 'd' in v:
            if len({'e', 'd', 'u', 'v'} & set(v)) != 4:
                bad('the Edwards parameters are not complete')
                return
            e, d, u, vv = v['e'], v['d'], v['u'], v['v']
            if (e * d * (e - d)) % p == 0:
                bad('the Edwards form is singular')
            if (e * u * u + vv * vv - 1 - d * u * u * vv * vv) % p:
                bad('(u, v) is not a point of the Edwards curve')
            k = canonical_of(v)
            for n in 'abxy':
                if n in v and any(v.get(i, 0) for i in 'abxy') and v[n] != k[n]:
                    bad('%s is not the canonical value of the Edwards form' % n)
            c.update(k)
        a, b, x, y, m = (c[n] for n in 'abxym')
        if (4 * a ** 3 + 27 * b * b) % p == 0:
            bad('the curve is singular')
        if not (0 <= a < p and 0 <= b < p and 0 <= x < p and 0 <= y < p):
            bad('a coefficient or coordinate is not reduced')
        if (y * y - x ** 3 - a * x - b) % p:
            bad('the base point is not on the curve')
            return
        cu = G.Curve(p, a)
        if cu.mul(q, (x, y)) is not None:
            bad('q times the base point is not the zero point')
        if m % q:
            bad('m is not a multiple of q')
        if (m - p - 1) ** 2 > 4 * p:
            bad('m is outside the Hasse interval')
        if m == p:
            bad('m equals p')
        r = random.Random(p)
        if p % 4 == 3:
            n = 0
            while n < 3:
                xx = r.randrange(p)
                yy = pow(xx ** 3 + a * xx + b, (p + 1) // 4, p)
                if (yy * yy - xx ** 3 - a * xx - b) % p == 0 and yy:
                    n += 1
                    if cu.mul(m, (xx, yy)) is not None:
                        bad('m times a point of the curve is not the zero point')
        for i in range(1, 32 if size == 32 else 132):
            if pow(p, i, q) == 1:
                bad('p^%d is 1 modulo q' % i)
        lo, hi = (254, 256) if size == 32 else (508, 512)
        if not 2 ** lo < q < 2 ** hi:
            bad('q is outside the range of the %d-bit signature' % (size * 8))
        ctx.items += 14
        ctx.sample.append('%s: p, q prime, order and equation of the base point' % name)
    return run


def canonical_of(v):
    p, e, d, u, vv = v['p'], v['e'], v['d'], v['u'], v['v']
    s = (e - d) * pow(4, -1, p) % p
    t = (e + d) * pow(6, -1, p) % p
    i = pow(1 - vv, -1, p)
    return {'a': (s * s - 3 * t * t) % p, 'b': (2 * t ** 3 - t * s * s) % p, 'x': (s * (1 + vv) * i + t) % p,
            'y': s * (1 + vv) * i * pow(u, -1, p) % p}


def standard(ctx):
    w = table_where(ctx)
    for name in SG.tables(ctx):
        v = values(ctx, name)
        if name not in CURVES:
            continue
        for n in sorted(set(v) & set(CURVES[name])):
            ctx.items += 1
            if v[n] != CURVES[name][n]:
                ctx.fail('%s: %s is %s, the standard has %s' % (name, n, hex(v[n]), hex(CURVES[name][n])), w)
    for name in CURVES:
        if name not in SG.tables(ctx):
            ctx.fail('%s is not in the table' % name, w)


def accepted(name):
    def run(ctx):
        def body():
            it = ctx.it
            v = values(ctx, name)
            size = size_in(name)
            o = ctx.fn('gostsignature', 'new', SG.mode_of(ctx, size), SG.table(ctx, name))
            ctx.items += 1
            objs = [(o, 'the table entry')]
            c = dict(v)
            if 'e' in v:
                c.update(canonical_of(v))
                only = it.new_dict({k: x for k, x in v.items() if k not in 'abxy'})
                objs.append((ctx.fn('gostsignature', 'new', SG.mode_of(ctx, size), only), 'the Edwards parameters alone'))
                zero = it.new_dict({k: (0 if k in 'abxy' else x) for k, x in v.items()})
                objs.append((ctx.fn('gostsignature', 'new', SG.mode_of(ctx, size), zero), 'the Edwards parameters and zeros'))
                k = {n: v[n] for n in ('p', 'a', 'b', 'm', 'q', 'x', 'y')} if 'a' in v else None
                if k:
                    objs.append((ctx.fn('gostsignature', 'new', SG.mode_of(ctx, size), it.new_dict(k)), 'the canonical parameters'))
            cu = G.Curve(c['p'], c['a'])
            for o, what in objs:
                for n in (1, 2, 3):
                    P = cu.mul(n, (c['x'], c['y']))
                    r = ctx.frozen(ctx.call(o, 'public_key_generate', ctx.arr(n.to_bytes(size, 'big'))))
                    ctx.eq(r, ctx.by(tuple(P[0].to_bytes(size, 'big') + P[1].to_bytes(size, 'big'))),
                           '%s, created from %s: %d times the base point' % (name, what, n), ctx.where(o, '__init__'), content=True)
        ctx.scenario(body, name)
    return run


def other_edwards(seed):
    """Edwards parameters of other curves over the shipped fields: the derived form is the equivalent curve.

    A point (u, v) and e are chosen, d follows from the equation; q is only required to lie in its range."""
    def run(ctx):
        def body():
            it = ctx.it
            r = random.Random(seed)
            name = r.choice([n for n in CURVES])
            size = size_in(name)
            p = CURVES[name]['p']
            while True:
                e, u, v = (r.randrange(2, p) for _ in range(3))
                if seed % 3 == 0:
                    e = 1
                d = (e * u * u + v * v - 1) * pow(u * u * v * v, -1, p) % p
                if d and d != e and (1 - v) * u % p:
                    break
            par = {'p': p, 'e': e, 'd': d, 'u': u, 'v': v, 'm': CURVES[name]['m'], 'q': CURVES[name]['q']}
            c = canonical_of(par)
            if (c['y'] ** 2 - c['x'] ** 3 - c['a'] * c['x'] - c['b']) % p:
                raise Violation('the reference map is wrong')
            o = ctx.fn('gostsignature', 'new', SG.mode_of(ctx, size), it.new_dict(par))
            cu = G.Curve(p, c['a'])
            for n in (1, 2):
                P = cu.mul(n, (c['x'], c['y']))
                g = ctx.frozen(ctx.call(o, 'public_key_generate', ctx.arr(n.to_bytes(size, 'big'))))
                ctx.eq(g, ctx.by(tuple(P[0].to_bytes(size, 'big') + P[1].to_bytes(size, 'big'))),
                       'the canonical form of an Edwards curve over the field of %s: %d times the base point' % (name, n),
                       ctx.where(o, '__init__'), content=True)
        ctx.scenario(body, 'Edwards')
    return run


def obligations(ctx):
    out = [('values of the standard', standard)]
    for name in SG.tables(ctx):
        out.append((name + ' soundness', sound(name)))
        out.append((name + ' accepted', accepted(name)))
    for seed in range(8 if ctx.tier == 'quick' else 40):
        out.append(('another Edwards curve %d' % seed, other_edwards(seed)))
    return out

"""The constructor is analysed with parameter sets in which exactly one condition
of the standard is violated, for every shipped curve: base point off the curve
(each coordinate and coefficient, canonical and Edwards form), m = p, q below and
above its range, the wrong mode, missing or nonpositive parameters; and, for
every i up to 31 (131), a set whose modulus has order exactly i modulo q.  Each
is refused with the documented error.  With one parameter unknown, every
accepting path carries the facts of the condition (normal form, or no valuation
of the path violates it)."""
import random
from ..common import *
from .. import zpoly as Z
from .c17 import prime, values, size_in, canonical_of
from . import sigmodel as SG

ASSUMPTIONS = ['the conditions are independent of each other in the constructor except where they are combined here']
ERR = ('GOSTSignatureError', 'GOSTSignatureError: invalid parameters of the elliptic curve')
MODE = ('GOSTSignatureError', 'GOSTSignatureError: unsupported signature mode')


def refused(ctx, mode, par, what, err=ERR):
    it = ctx.it
    ctx.items += 1
    cv = it.new_dict(dict(par)) if isinstance(par, dict) else par
    try:
        o = ctx.fn('gostsignature', 'new', mode, cv)
    except TargetExc as ex:
        if ctx.error_of(ex) != err:
            ctx.fail('%s raises %s (%s)' % ((what,) + tuple(ctx.text(x) for x in ctx.error_of(ex))), ex.site)
        return
    ctx.fail('%s: accepted' % what, ctx.where(o, '__init__'))


def broken(c, size):
    """(what, parameters) with one condition violated."""
    p, q = c['p'], c['q']
    out = []
    for n in 'abxy':
        for d in (1, -1, 1 << 64, 1 << (size * 8 - 9)):
            k = dict(c)
            k[n] = (c[n] + d) % p
            if (k['y'] ** 2 - k['x'] ** 3 - k['a'] * k['x'] - k['b']) % p and any(k[i] for i in 'abxy'):
                out.append(('%s changed by %d' % (n, d) if abs(d) == 1 else '%s changed' % n, k))
    k = dict(c, x=c['y'], y=c['x'])
    if (k['y'] ** 2 - k['x'] ** 3 - k['a'] * k['x'] - k['b']) % p:
        out.append(('coordinates exchanged', k))
    out.append(('m equal to p', dict(c, m=p)))
    lo, hi = (254, 256) if size == 32 else (508, 512)
    for v, t in ((2 ** lo - 1, '2^%d - 1' % lo), (2 ** hi + 1, '2^%d + 1' % hi), (2 ** (hi + 1) - 1, '2^%d - 1' % (hi + 1)),
                 (2 ** (lo - 1) + 1, '2^%d + 1' % (lo - 1)), (2 ** (lo // 2) + 1, '2^%d + 1' % (lo // 2)), (3, '3'), (1, '1'),
                 (0, '0'), (-q, '-q'), (-1, '-1'), (2 ** 160 + 7, '2^160 + 7')):
        out.append(('q = %s' % t, dict(c, q=v)))
    for v in (0, -1, -p):
        out.append(('p = %s' % ('-p' if v == -p else v), dict(c, p=v)))
    for n in c:
        if n not in ('m', 'a', 'b', 'x'):
            k = dict(c)
            del k[n]
            out.append(('without %s' % n, k))
    return out


def single(name):
    def run(ctx):
        def body():
            v = values(ctx, name) if name in SG.tables(ctx) else {}
            size = SG.size_of(ctx, SG.table(ctx, name))
            mode = SG.mode_of(ctx, size)
            c = {n: SG.canonical(ctx, SG.table(ctx, name))[n] for n in ('p', 'a', 'b', 'm', 'q', 'x', 'y')}
            cases = broken(c, size)
            if 'e' in v:
                p = v['p']
                ed = {k: x for k, x in v.items() if k not in 'abxy'}
                for n in 'eduv':
                    k = dict(ed)
                    k[n] = (k[n] + 1) % p
                    cases.append(('Edwards parameters with %s changed' % n, k))
                cases.append(('Edwards parameters with m = p', dict(ed, m=p)))
                cases.append(('Edwards parameters with a small q', dict(ed, q=2 ** 128 + 51)))
            for what, k in cases:
                refused(ctx, mode, k, '%s, %s' % (name, what))
            other = SG.mode_of(ctx, 96 - size)
            refused(ctx, other, c, '%s in the mode of the other size' % name)
            refused(ctx, other, SG.table(ctx, name), '%s in the mode of the other size' % name)
            given = SG.table(ctx, name)
            given = ctx.it.new_dict(dict(given)) if isinstance(given, dict) else given
            for m in (0, 3, 255, -1, None, '1', 256, 512):
                refused(ctx, m, given, '%s with mode %r' % (name, m), MODE)
            refused(ctx, mode, {}, 'an empty parameter set')
            ctx.sample.append('%s: %d parameter sets' % (name, len(cases) + 11))
        ctx.scenario(body, name)
    return run


_Q = {}


def modulus(size):
    """A prime q in range with every i up to the bound dividing q - 1."""
    import math
    if size not in _Q:
        L = 1
        for i in range(1, 32 if size == 32 else 132):
            L = math.lcm(L, i)
        r = random.Random(size)
        while True:
            q = r.randrange(2 ** (size * 8 - 1) // L, 2 ** (size * 8) // L) * L + 1
            if prime(q):
                break
        _Q[size] = q
    return _Q[size]


def order(i, q, r):
    fac = [f for f in range(2, i + 1) if i % f == 0 and all(f % g for g in range(2, f))]
    while True:
        h = pow(r.randrange(2, q), (q - 1) // i, q)
        if all(pow(h, i // f, q) != 1 for f in fac):
            return h


def embedding(size, span):
    def run(ctx):
        def body():
            q = modulus(size)
            r = random.Random(repr((size, span)))
            mode = SG.mode_of(ctx, size)
            for i in span:
                for t in (0, 1):
                    p = order(i, q, r) + t * q
                    if p < 7:
                        continue
                    x, y, a = 3, 5, 2
                    b = (y * y - x ** 3 - a * x) % p
                    refused(ctx, mode, {'p': p, 'a': a, 'b': b, 'm': p + 2, 'q': q, 'x': x, 'y': y},
                            'a %d-bit parameter set with p^%d = 1 modulo q' % (size * 8, i))
            ctx.sample.append('%d bits: orders %d..%d' % (size * 8, span[0], span[-1]))
        ctx.scenario(body, 'embedding')
    return run


def unknown(name, which):
    """One parameter is an arbitrary integer."""
    def run(ctx):
        it = ctx.it
        size = size_in(name)
        c = {n: SG.canonical(ctx, SG.table(ctx, name))[n] for n in ('p', 'a', 'b', 'm', 'q', 'x', 'y')}
        lo, hi = (254, 256) if size == 32 else (508, 512)

        def body():
            k = dict(c)
            for n in which:
                k[n] = ZInt(Z.zatom(('sym', n), 1 if n in 'pq' else 0, 1 << (size * 8 + 1)))
            o = ctx.fn('gostsignature', 'new', SG.mode_of(ctx, size), it.new_dict(k))
            ctx.items += 1
            bad = it.call(spec(ctx, 'curve')['violated'], [k[n] for n in ('p', 'a', 'b', 'm', 'q', 'x', 'y')] + [lo, hi], {})
            if bad:
                if ctx.feasible():
                    ctx.fail('%s with another %s: accepted although %s' % (name, ', '.join(which), bad), ctx.where(o, '__init__'))
                else:
                    ctx.note('%s with unknown %s: an accepting path may violate: %s' % (name, which, bad))
        n = 0
        for kind, val, st in ctx.paths(body):
            n += 1
            if kind == 'exc' and ctx.error_of(val) != ERR and ctx.feasible(st[1]):
                ctx.fail('%s with another %s raises %s' % (name, which, ctx.error_of(val)[0]), val.site)
        ctx.sample.append('%s, unknown %s: %d paths' % (name, which, n))
    return run


def obligations(ctx):
    out = []
    for name in SG.tables(ctx):
        out.append((name + ' one condition violated', single(name)))
        for w in ('y', 'x', 'xy', 'm', 'b', 'ab', 'q'):
            if w == 'q' and size_in(name) == 64 and ctx.tier == 'quick':
                continue
            out.append(('%s unknown %s' % (name, w), unknown(name, tuple(w))))
    for name in SG.callers(ctx):
        out.append((name + ' one condition violated', single(name)))
    out.append(('orders up to 31', embedding(32, range(1, 32))))
    for lo in range(1, 132, 20):
        out.append(('512 bits, orders %d..' % lo, embedding(64, range(lo, min(lo + 20, 132)))))
    return out

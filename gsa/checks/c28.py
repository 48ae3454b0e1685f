"""Point arithmetic of every shipped curve.  (1) In the group domain the base
point is an abstract point P; public_key_generate(n) is shown to be the encoding
of n*P for n = 1..N, powers of two and their neighbours, and full-size n, by the
chord and tangent formulas modulo the curve equation, and for an unknown private
key by the contract of the multiplication.  (2) By constant propagation the
encoded result is compared with a reference for boundary scalars, scalars whose
result has leading zero bytes, and scalars not below q.  (3) Additions of two
particular points (equal, opposite, equal in one byte of a coordinate) are
reached through verify() with a signature it has to accept."""
import random
from ..common import *
from .. import group as G
from . import sigmodel as SG

ASSUMPTIONS = ['general position: in (1) different small combinations of P do not coincide',
               'scalars are enumerated; an unknown scalar is covered by the contract of the multiplication, itself checked on '
               'enumerated scalars']


def rnd(*k):
    return random.Random(repr(k))


def encoded(ctx, g, n, size):
    X, Y = g.point(n)
    return ctx.by(SG.enc(ctx, X, size) + SG.enc(ctx, Y, size))


def scalar(ctx, n, size):
    return ctx.arr(n.to_bytes(size, 'big'))


def law(name, group, ns):
    def run(ctx):
        def body():
            it = ctx.it
            r = SG.abstract(ctx, name)
            if r is None:
                raise Unsupported('base point not found in the object')
            o, g, c = r
            size = SG.size_of(ctx, c_table(ctx, name))
            start = it.snapshot()
            where = ctx.where(o, 'public_key_generate')
            for n in ns(c['q']):
                it.restore(start)
                got = ctx.frozen(op_(ctx, o, scalar(ctx, n, size)))
                ctx.eq(got, encoded(ctx, g, n, size), '%s: the public key of %s is not %s*P' % (name, hex(n), hex(n)), where,
                       content=True)
            ctx.sample.append('%s %s: %d scalars, %d additions recognised' % (name, group, len(ns(c['q'])), g.adds))
        ctx.scenario(body, name)
    return run


def op_(ctx, o, a):
    return ctx.call(o, 'public_key_generate', a)


def c_table(ctx, name):
    return SG.table(ctx, name)


def unknown(name):
    def run(ctx):
        def body():
            o, g, c = SG.abstract(ctx, name)
            size = SG.size_of(ctx, c_table(ctx, name))
            d = ctx.sym('d', size)
            k = ctx.it.int_from_bytes(d)
            got = op_(ctx, o, d)
            from ..values import to_poly
            ctx.eq(ctx.frozen(got), encoded(ctx, g, to_poly(k), size), '%s: the public key of an unknown d is not d*P' % name,
                   ctx.where(o, 'public_key_generate'), content=True)
        ctx.scenario(body, name, allow=('invalid private key',))
    return run


def constants(name, ns):
    def run(ctx):
        def body():
            it = ctx.it
            o = SG.make(ctx, name)
            c = SG.canonical(ctx, c_table(ctx, name))
            size = SG.size_of(ctx, c_table(ctx, name))
            cu = G.Curve(c['p'], c['a'])
            start = it.snapshot()
            for n in ns(c, cu, size):
                it.restore(start)
                w = cu.mul(n % c['q'], (c['x'], c['y']))
                got = ctx.frozen(op_(ctx, o, scalar(ctx, n, size)))
                ctx.eq(got, ctx.by(tuple(w[0].to_bytes(size, 'big') + w[1].to_bytes(size, 'big'))),
                       '%s: wrong public key of %s' % (name, hex(n)), ctx.where(o, 'public_key_generate'), content=True)
        ctx.scenario(body, name)
    return run


def zeros(which):
    """Small n whose point has a coordinate with a leading zero byte."""
    def f(c, cu, size):
        out = []
        P = R = (c['x'], c['y'])
        for n in range(2, 4000):
            R = cu.add(R, P)
            if R[which].bit_length() <= size * 8 - 8:
                out.append(n)
                if len(out) == 2:
                    break
        return out
    return f


def signature_for(c, cu, Q, i, j, size):
    """(digest, signature) whose verification computes i*P + j*Q and accepts."""
    q = c['q']
    A, B = cu.mul(i, (c['x'], c['y'])), cu.mul(j, Q)
    S = cu.add(A, B)
    if S is None or S[0] % q == 0:
        return None
    r = S[0] % q
    e = -r * pow(j, -1, q) % q
    s = i * e % q
    return e.to_bytes(size, 'big'), r.to_bytes(size, 'big') + s.to_bytes(size, 'big')


def key_bytes(Q, size):
    return Q[0].to_bytes(size, 'big') + Q[1].to_bytes(size, 'big')


def additions(name, cases):
    """Sums of two particular points, reached through verify()."""
    def run(ctx):
        def body():
            it = ctx.it
            o = SG.make(ctx, name)
            c = SG.canonical(ctx, c_table(ctx, name))
            size = SG.size_of(ctx, c_table(ctx, name))
            cu = G.Curve(c['p'], c['a'])
            start = it.snapshot()
            n = 0
            for what, Q, i, j in cases(c, cu, size):
                sg = signature_for(c, cu, Q, i, j, size)
                if sg is None:
                    continue
                n += 1
                it.restore(start)
                r = ctx.call(o, 'verify', ctx.arr(key_bytes(Q, size)), ctx.arr(sg[0]), ctx.arr(sg[1]))
                ctx.items += 1
                if r is not True:
                    ctx.fail('%s: the sum of two points (%s) is wrong: a signature with r = x(%d*P + %d*Q) is refused' % (
                        name, what, i, j), ctx.where(o, 'verify'))
            ctx.sample.append('%s: %d sums' % (name, n))
        ctx.scenario(body, name)
    return run


def byte_cases(c, cu, size):
    """Q sharing bytes of a coordinate with P."""
    P = (c['x'], c['y'])
    out = [('equal points', P, 1, 1), ('equal points', P, 2, 2), ('2P + P', cu.mul(2, P), 1, 1), ('P + 3P', P, 1, 3),
           ('x equal after reduction', cu.mul(c['q'] - 2, P), 3, 1)]
    R = P
    found = {}
    for n in range(2, 1200):
        R = cu.add(R, P)
        for co in (0, 1):
            a, b = R[co].to_bytes(size, 'big'), P[co].to_bytes(size, 'big')
            for k in (0, 1, size // 2, size - 1):
                if a[k] == b[k] and (co, k) not in found:
                    found[co, k] = R
                    out.append(('byte %d of %s equal' % (k, 'xy'[co]), R, 1, 1))
            if len(a.lstrip(b'\0')) < size and ('short', co) not in found:
                found['short', co] = R
                out.append(('%s with leading zeros' % 'xy'[co], R, 1, 1))
        if len(found) == 10:
            break
    r = rnd('sums', c['p'])
    for _ in range(4):
        out.append(('general', cu.mul(r.randrange(2, c['q']), P), r.randrange(1, 9), r.randrange(1, 9)))
    return out


def small_cases(c, cu, size):
    P = (c['x'], c['y'])
    return [('equal points', P, 1, 1), ('2P + P', cu.mul(2, P), 1, 1), ('P + 3P', P, 1, 3), ('5P + 6P', cu.mul(3, P), 5, 2)]


def obligations(ctx):
    out = []
    T = ctx.tier != 'quick'
    for name in SG.tables(ctx):
        size = SG.size_of(ctx, c_table(ctx, name))
        lim = 120 if T else 48
        out.append((name + ' law for small scalars', law(name, 'small', lambda q, lim=lim: list(range(1, lim)))))

        def powers(q, size=size, T=T):
            r = rnd('pow', q)
            es = sorted({8, 9, 15, 16, 31, 33, 40} | ({64, 127, 128, 200, size * 8 - 2} if T else {64} if size == 32 else set()))
            ns = []
            for e in es:
                ns += [2 ** e - 1, 2 ** e, 2 ** e + 1]
            ns += [r.randrange(2 ** 16, 2 ** 64) for _ in range(3 if size == 32 or T else 1)]
            return [n for n in ns if n < q]
        out.append((name + ' law for powers of two', law(name, 'powers', powers)))
        if size == 32 or T or name.endswith('C'):
            def full(q, T=T, size=size):
                r = rnd('full', q)
                return [r.randrange(q // 2, q)] + ([q - 1 - r.randrange(3, 1000)] if size == 32 or T else [])
            out.append((name + ' law for full-size scalars', law(name, 'full', full)))
        out.append((name + ' unknown scalar', unknown(name)))

        def edge(c, cu, size):
            q = c['q']
            top = (1 << size * 8) - 1
            return [n for n in (1, 2, 3, q - 1, q + 1) if n <= top]

        def more(c, cu, size, T=T):
            q = c['q']
            r = rnd('more', q)
            top = (1 << size * 8) - 1
            return [n for n in (q - 2, top, (q + 1) // 2, r.randrange(q)) if n % q][:4 if T else 2]
        out.append((name + ' boundary scalars', constants(name, edge)))
        if size == 32 or T:
            out.append((name + ' further scalars', constants(name, more)))
        out.append((name + ' leading zeros of x', constants(name, zeros(0))))
        out.append((name + ' leading zeros of y', constants(name, zeros(1))))
        out.append((name + ' sums of two points', additions(name, byte_cases)))
    for name in SG.callers(ctx):
        zero = not SG.plain(ctx, SG.table(ctx, name))['x']
        if not zero:
            out.append((name + ' law for small scalars', law(name, 'small', lambda q: list(range(1, 24)) + [31, 32, 33, 255])))
            out.append((name + ' unknown scalar', unknown(name)))
        out.append((name + ' boundary scalars', constants(name, lambda c, cu, size: [1, 2, 3, 4, 5, 6, 7, 16, 31])))
        out.append((name + ' sums of two points', additions(name, small_cases)))
    return out

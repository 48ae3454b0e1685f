"""verify() for every shipped curve.  (1) With abstract points P and Q, an unknown
digest and an unknown signature, the verdict of every path is shown to be the
predicate `0 < r, s < q and x(z1*P + z2*Q) mod q = r`, in normal form; the terms
are also evaluated under genuine signatures, signatures whose r differs from x in
one byte, halves increased by q, and halves equal to zero.  (2) Every byte of
digest, signature and public key is among the inputs of the verdict.  (3) For an
unknown public key every path beyond the rejection carries the facts x, y < p and
the curve equation.  (4) Particular signatures (opposite or equal summands, zero
or maximal halves, every single byte of r altered, digest 0 modulo q, coordinates
not reduced) are propagated as constants."""
import random
from ..common import *
from .. import core
from .. import evalform as EV
from .. import forms as F
from .. import group as G
from .. import zpoly as Z
from ..values import to_poly
from . import sigmodel as SG
from .c28 import signature_for, key_bytes

ASSUMPTIONS = ['general position in (1): the special relations between P and Q are covered as constants in (4)',
               'multiples are decided by C28']


def accept(cu, P, Q, digest, r, s, q):
    """The definition in GOST R 34.10-2012."""
    if not (0 < r < q and 0 < s < q):
        return False
    e = digest % q or 1
    v = pow(e, -1, q)
    S = cu.add(cu.mul(s * v % q, P), cu.mul(-r * v % q, Q))
    return S is not None and S[0] % q == r


# ------------------------------------------------------------ (1), (2)
def forced(name, n, value):
    """Fix the big-endian input bytes `name`."""
    b = value.to_bytes(n, 'big')
    out = {}
    for i in range(n):
        for j in range(8):
            f = F.atom(('in', name, 8 * i + j))
            out[f.bit_length() - 1] = b[i] >> j & 1
    return out


def directed(g, size, seed):
    """(what, digest, r, s) for the points a valuation of this seed assigns to P and Q."""
    q, p = g.q, g.p
    rr = random.Random(repr((seed, 'points')))       # as Group.value
    u, w = rr.randrange(1, q), rr.randrange(1, q)
    top = 1 << size * 8
    rng = random.Random(repr((seed, 'sig')))
    e = rng.randrange(1, q)
    t = rng.randrange(1, q)
    x = g.curve.mul(t, g.base)[0] % q
    P, Q = g.curve.mul(u, g.base), g.curve.mul(w, g.base)

    def s_for(r, t=t, e=e):
        z2 = -r * pow(e, -1, q)
        return (t - z2 * w) * pow(u, -1, q) * e % q
    s = s_for(x)
    out = [('a genuine signature', e, x, s)]
    if e + q < top:
        out.append(('a genuine signature, digest + q', e + q, x, s))
    ks = range(size) if seed == 0 else (0, size // 2, size - 1)
    for k in ks:
        for m in (1, 0x80):
            r2 = x ^ (m << 8 * k)
            if 0 < r2 < q:
                out.append(('r differing from x in one bit of byte %d' % (size - 1 - k), e, r2, s_for(r2)))
    if seed == 0:
        for k in (0, 7, size - 1):
            out.append(('an altered digest', e ^ (1 << 8 * k), x, s))
            out.append(('an altered s', e, x, s ^ (1 << 8 * k)))
            out.append(('an altered r', e, x ^ (1 << 8 * k), s))
    for r2, s2, what in ((x + q, s, 'r increased by q'), (x, s + q, 's increased by q'), (0, s_for(0), 'r = 0'), (x, 0, 's = 0'),
                         (q, s, 'r = q'), (x, q, 's = q'), (top - 1, s, 'the largest r'), (x, top - 1, 'the largest s'),
                         (0, 0, 'r = s = 0')):
        if max(r2, s2) < top:
            out.append((what, e, r2, s2))
    for what in ('negated s', ):
        out.append((what, e, x, q - s))
    return [(w_, e_ , r_, s_, accept(g.curve, P, Q, e_, r_, s_, q)) for w_, e_, r_, s_ in out]


def symbolic(name, kind):
    def run(ctx):
        it = ctx.it
        if it.shaping:
            raise Unsupported('only for an unknown digest and signature')
        r = SG.abstract(ctx, name)
        if r is None:
            raise Unsupported('base point not found in the object')
        o, g, c = r
        size = SG.size_of(ctx, SG.table(ctx, name))
        where = ctx.where(o, 'verify')
        mk = ctx.arr if kind == 'bytearray' else ctx.by
        X, Y = g.point(0, 1)
        pk = SG.enc(ctx, X, size) + SG.enc(ctx, Y, size)
        dg, rb, sb = (ctx.el(ctx.sym(n, size)) for n in ('digest', 'r', 's'))
        cases = [(seed, x, {**forced('digest', size, x[1]), **forced('r', size, x[2]), **forced('s', size, x[3])})
                 for seed in (0, 1, 2) for x in directed(g, size, seed)]
        struct = []

        def body():
            got = ctx.call(o, 'verify', mk(pk), mk(dg), mk(rb + sb))
            ok = False
            if isinstance(got, (bool, SBool)):
                w = reference()
                ok = any(it.canon(got) == it.canon(x) for x in w)
            struct.append(ok)
            return got

        def reference():
            ri, si, e = (it.int_from_bytes(ctx.by(x)) for x in (rb, sb, dg))
            S = spec(ctx, 'verify')
            if it.call(S['outside'], [ri, si, c['q']], {}):
                return [False]
            z1, z2 = it.call(S['coefficients'], [ri, si, ctx.by(dg), c['q'], native(
                lambda v: ZInt(Z.inv(to_poly(v), g.qm)))], {})
            x = g.point(to_poly(z1), to_poly(z2))[0]
            return list(it.call(S['verdicts'], [x, ri, c['q'], size], {}))
        n = 0
        for kind_, val, st in ctx.paths(body):
            facts = st[1]
            if kind_ == 'abandon':
                ctx.note('%s: a path beyond the loop bound was not analysed' % name)
                continue
            if kind_ == 'exc':
                if ctx.feasible(facts):
                    ctx.fail('%s: verify raises %s (%s) for a public key on the curve' % (name,) + tuple(map(ctx.text, ctx.error_of(val)))
                             if False else '%s: verify raises %s for a public key on the curve' % (name, ctx.error_of(val)[0]), val.site)
                continue
            if not isinstance(val, (bool, SBool)):
                ctx.fail('%s: verify returns %s' % (name, it.type_name(val)), where)
                continue
            n += 1
            hit = 0
            for seed, (what, e, r_, s_, w), fo in cases:
                v = EV.Valuation(seed, 'random', fo)
                if not EV.facts_hold(v, facts):
                    continue
                hit += 1
                ctx.items += 1
                b = val if isinstance(val, bool) else bool(v.cond(val.expr))
                if b != w:
                    ctx.fail('%s: the verdict for %s is %s' % (name, what, b), where)
                    break
            if isinstance(val, SBool):
                dep = core.Deps(it)
                d2 = per_byte(ctx, val, facts)
                for nm in ('digest', 'r', 's'):
                    miss = [k for k in range(size) if (nm, k) not in d2]
                    if miss:
                        ctx.fail('%s: byte %d of %s takes no part in the verdict' % (name, miss[0], nm), where)
        if not any(struct):
            ctx.note('%s: the verdict is not the defining predicate in normal form' % name)
        ctx.sample.append('%s: %d paths, %d of them in the normal form of the definition, %d evaluations' % (
            name, n, sum(struct), ctx.items))
    return run


def per_byte(ctx, val, facts):
    """(input name, byte number) of every input bit the verdict or a fact of the path depends on."""
    d = BitDeps(ctx.it)
    out = d.cond(val.expr)
    for f in facts:
        out = out | d.cond(f)
    return out


class BitDeps(core.Deps):
    def base_in(self, k):
        return frozenset(((k[1], k[2] // 8),))

    def zat(self, a):
        k = Z.ZKEYS[a]
        if k[0] == 'pt':
            if a not in self.zmemo:
                self.zmemo[a] = self.poly(k[2]) | self.poly(k[3])
            return self.zmemo[a]
        return super().zat(a)


# ------------------------------------------------------------ (3)
def public_key(name):
    """An unknown public key: beyond the rejection it is reduced and on the curve."""
    def run(ctx):
        it = ctx.it
        o = SG.make(ctx, name)
        c = SG.canonical(ctx, SG.table(ctx, name))
        size = SG.size_of(ctx, SG.table(ctx, name))
        g = G.Group(it, c['p'], c['a'], c['b'], c['q'], (c['x'], c['y']))
        G.activate(it, g)
        q = c['q']
        where = ctx.where(o, 'verify')
        r = 5
        e = -r % q                     # z2 = 1
        s = e                          # z1 = 1
        res = []

        def body():
            pk = ctx.sym('pk', 2 * size)
            b = ctx.el(pk)
            ctx.call(o, 'verify', pk, ctx.arr(e.to_bytes(size, 'big')),
                     ctx.arr(r.to_bytes(size, 'big') + s.to_bytes(size, 'big')))
            x, y = it.int_from_bytes(ctx.by(b[:size])), it.int_from_bytes(ctx.by(b[size:]))
            S = spec(ctx, 'verify')
            bad = it.call(S['not_on_curve'], [x, y, c['p'], c['a'], c['b']], {})
            if bad:
                if ctx.feasible():
                    ctx.fail('%s: a public key that is not a reduced point of the curve is not refused' % name, where)
                else:
                    ctx.note('%s: a path with a wrong public key may reach a verdict' % name)
            ctx.items += 1
        n = 0
        for kind, val, st in ctx.paths(body):
            n += 1
            if kind == 'exc':
                cl, msg = ctx.error_of(val)
                if (cl, msg) != ('GOSTSignatureError', 'GOSTSignatureError: invalid public key value') and ctx.feasible(st[1]):
                    ctx.fail('%s: an unknown public key raises %s (%s)' % (name, cl, ctx.text(msg)), val.site)
        ctx.sample.append('%s: %d paths for an unknown public key' % (name, n))
    return run


# ------------------------------------------------------------ (4)
ERR = ('GOSTSignatureError', 'GOSTSignatureError: invalid public key value')


def particular(c, cu, size, slow):
    """(what, public key bytes, digest, r, s, wanted verdict or ERR)"""
    q, p = c['q'], c['p']
    P = (c['x'], c['y'])
    top = 1 << size * 8
    rng = random.Random(repr(('c24', p)))
    out = []

    def solve(i, j, r):
        e = -r * pow(j, -1, q) % q
        return e, i * e % q

    def add(what, Q, e, r, s):
        if max(r, s, e) < top:
            out.append((what, key_bytes(Q, size), e, r, s, accept(cu, P, Q, e, r, s, q)))
    for n in range(3):
        Q = cu.mul(rng.randrange(2, q), P)
        i, j = rng.randrange(1, 12), rng.randrange(1, 12)
        x = cu.add(cu.mul(i, P), cu.mul(j, Q))[0] % q
        e, s = solve(i, j, x)
        add('a genuine signature', Q, e, x, s)
        add('the same for the opposite public key', (Q[0], p - Q[1]), e, x, s)
        if n == 0:
            for k in range(size):
                for m in (1, 0x80):
                    r2 = x ^ (m << 8 * k)
                    if 0 < r2 < q:
                        e2, s2 = solve(i, j, r2)
                        add('r differing from x in byte %d' % (size - 1 - k), Q, e2, r2, s2)
        e2, s2 = solve(i, j, x + q)
        add('r increased by q', Q, e, x + q, s)
        add('s increased by q', Q, e, x, s + q)
        add('digest increased by q', Q, e + q, x, s)
        add('r = q', Q, e, q, s)
        add('s = q', Q, e, x, q)
        add('the largest r', Q, e, top - 1, s)
        add('the largest s', Q, e, x, top - 1)
        add('r = q - 1', Q, *reorder(solve(i, j, q - 1), q - 1))
        # s = 0: the sum is z2*Q
        x = cu.mul(j, Q)[0] % q
        e, _ = solve(1, j, x)
        add('s = 0', Q, e, x, 0)
        add('s = q and r = x(z2*Q)', Q, e, x, q)
        # r = 0: the sum is z1*P (some value of r congruent to it)
        e = rng.randrange(1, q)
        add('r = 0', Q, e, 0, i * e % q)
        add('r = s = 0', Q, e, 0, 0)
    # z1*P and z2*Q equal or opposite
    for i, j in ((1, 1), (2, 1), (1, 2), (3, 5)):
        for sign in (1, -1):
            u = sign * i * pow(j, -1, q) % q
            Q = cu.mul(u, P)
            if sign > 0:
                S = cu.mul(2 * i, P)
                e, s = solve(i, j, S[0] % q)
                add('equal summands', Q, e, S[0] % q, s)
            else:
                A = cu.mul(i, P)
                for r in {-2 * A[0] % p % q, A[0] % q, 2 * A[0] % p % q, cu.mul(2, A)[0] % q, 1} - {0}:
                    e, s = solve(i, j, r)
                    add('opposite summands', Q, e, r, s)
    # digest 0 modulo q counts as 1
    if slow:
        d, k = rng.randrange(1, q), 7
        Q = cu.mul(d, P)
        r = cu.mul(k, P)[0] % q
        s = (r * d + k) % q
        for dg in slow:
            add('digest congruent to 0' if dg % q == 0 else 'digest %d' % dg, Q, dg if dg != 'q' else q, r, s)
    # public keys that are not reduced points
    j = 3
    for Q in (P, cu.mul(2, P), cu.mul(5, P)):
        x = cu.add(cu.mul(2, P), cu.mul(j, Q))[0] % q
        e, s = solve(2, j, x)
        for what, K in (('x + p', (Q[0] + p, Q[1])), ('y + p', (Q[0], Q[1] + p)), ('a wrong y', (Q[0], (Q[1] + 1) % p)),
                        ('a wrong x', ((Q[0] + 1) % p, Q[1])), ('(0, 0)', (0, 0)), ('exchanged coordinates', (Q[1], Q[0]))):
            on = K[0] < p and K[1] < p and (K[1] ** 2 - K[0] ** 3 - c['a'] * K[0] - c['b']) % p == 0
            if max(K) < top and not on:
                out.append(('a public key with ' + what, key_bytes(K, size), e, x, s, ERR))
    return out


class Careless(G.Curve):
    """Addition that takes the inverse of zero for zero."""

    def add(self, P, Q):
        if P is None or Q is None:
            return P or Q
        p = self.p
        a, b = (3 * P[0] * P[0] + self.a, 2 * P[1]) if P == Q else (Q[1] - P[1], Q[0] - P[0])
        l = a * (pow(b, -1, p) if b % p else 0)
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def mul(self, n, P):
        """Both orders of double and add."""
        R, D = P, P
        for bit in bin(n - 1)[:1:-1]:
            if bit == '1':
                R = self.add(R, D)
            D = self.add(D, D)
        return R


def torsion(c, cu, size):
    """Points whose order divides the cofactor."""
    p, q = c['p'], c['q']
    h = (p + 1 + 2 * (1 << (p.bit_length() + 1) // 2)) // q
    out = []
    if h < 2:
        return out
    for x in range(300):
        y = G_sqrt((x ** 3 + c['a'] * x + c['b']) % p, p)
        if y is None:
            continue
        T = cu.mul(q, (x, y))
        if T is not None and T not in out:
            out.append(T)
        if len(out) >= 3:
            break
    return out


def G_sqrt(v, p):
    if pow(v, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(v, (p + 1) // 4, p)
    s, t = 0, p - 1
    while t % 2 == 0:
        s, t = s + 1, t // 2
    z = 2
    while pow(z, (p - 1) // 2, p) == 1:
        z += 1
    k, cc, y, r = s, pow(z, t, p), pow(v, t, p), pow(v, (t + 1) // 2, p)
    while y != 1:
        i, w = 0, y
        while w != 1:
            i, w = i + 1, w * w % p
        b = pow(cc, 1 << k - i - 1, p)
        k, cc, y, r = i, b * b % p, y * b * b % p, r * b % p
    return r


def low_order(c, cu, size):
    """Public keys whose order divides the cofactor, and ones with such a component."""
    q, p = c['q'], c['p']
    P = (c['x'], c['y'])
    bad = Careless(p, c['a'])
    out = []
    for T in torsion(c, cu, size):
        o = next(n for n in range(1, 20) if cu.mul(n, T) is None)
        for i, j in ((3, 1), (3, 2), (5, 3), (2, 4), (3, 6), (4, 5), (3, 8)):
            A = cu.mul(i, P)
            B = bad.mul(j, T)
            xs = {A[0] % q, cu.add(A, T)[0] % q, bad.add(A, B)[0] % q, bad.add(A, A)[0] % q}
            for r in sorted(xs - {0}):
                e = -r * pow(j, -1, q) % q
                s = i * e % q
                w = 'maybe' if accept(cu, P, T, e, r, s, q) else 'not True'
                out.append(('a public key of order %d (multiples %d and %d)' % (o, i, j), key_bytes(T, size), e, r, s, w))
        for n, i, j in ((2, 3, 2), (5, 1, 4)):
            Q = cu.add(cu.mul(n, P), T)
            S = cu.add(cu.mul(i, P), cu.mul(j, Q))
            for r in sorted({S[0] % q, cu.mul(i + n * j, P)[0] % q} - {0}):
                e = -r * pow(j, -1, q) % q
                s = i * e % q
                w = 'maybe' if accept(cu, P, Q, e, r, s, q) else 'not True'
                out.append(('a public key with a component of order %d' % o, key_bytes(Q, size), e, r, s, w))
    return out


def reorder(es, r):
    return es[0], r, es[1]


def constants(name, slow, low=False):
    def run(ctx):
        def body():
            it = ctx.it
            o = SG.make(ctx, name)
            c = SG.canonical(ctx, SG.table(ctx, name))
            size = SG.size_of(ctx, SG.table(ctx, name))
            cu = G.Curve(c['p'], c['a'])
            start = it.snapshot()
            where = ctx.where(o, 'verify')
            cs = low_order(c, cu, size) if low else particular(c, cu, size, [0, c['q'], 1][:slow])
            for what, pk, e, r, s, w in cs:
                it.restore(start)
                ctx.items += 1
                try:
                    got = ctx.call(o, 'verify', ctx.arr(pk), ctx.arr(e.to_bytes(size, 'big')),
                                   ctx.arr(r.to_bytes(size, 'big') + s.to_bytes(size, 'big')))
                except TargetExc as ex:
                    if w != ERR and not (isinstance(w, str) and ctx.error_of(ex) == ERR):
                        ctx.fail('%s: %s: verify raises %s' % (name, what, ctx.error_of(ex)[0]), ex.site)
                    elif w == ERR and ctx.error_of(ex) != ERR:
                        ctx.fail('%s: %s raises %s' % (name, what, ctx.text(ctx.error_of(ex)[1])), ex.site)
                    continue
                if w == ERR:
                    ctx.fail('%s: %s is not refused' % (name, what), where)
                elif isinstance(w, str):
                    if got is not True and w == 'maybe' or got is not False and w == 'not True':
                        ctx.fail('%s: the verdict for %s is %s' % (name, what, got if isinstance(got, bool) else it.type_name(got)),
                                 where)
                elif got is not w:
                    ctx.fail('%s: the verdict for %s is %s' % (name, what, got if isinstance(got, bool) else it.type_name(got)), where)
            ctx.sample.append('%s: %d particular signatures' % (name, len(cs)))
        ctx.scenario(body, name)
    return run


def obligations(ctx):
    out = []
    for i, name in enumerate(SG.tables(ctx)):
        size = SG.size_of(ctx, SG.table(ctx, name))
        for kind in ('bytearray', 'bytes'):
            out.append(('%s unknown digest and signature (%s)' % (name, kind), symbolic(name, kind)))
        out.append((name + ' unknown public key', public_key(name)))
        T = ctx.tier != 'quick'
        if torsion(SG.canonical(ctx, SG.table(ctx, name)), G.Curve(*[SG.canonical(ctx, SG.table(ctx, name))[k] for k in 'pa']), size):
            out.append((name + ' public keys of small order', constants(name, 0, True)))
        out.append((name + ' particular signatures', constants(name, 3 if T else 2 if size == 32 else 0)))
    for name in SG.callers(ctx):
        size = SG.size_of(ctx, SG.table(ctx, name))
        if SG.plain(ctx, SG.table(ctx, name))['x'] and (size == 32 or ctx.tier != 'quick'):
            out.append((name + ' unknown digest and signature (bytearray)', symbolic(name, 'bytearray')))
            out.append((name + ' unknown public key', public_key(name)))
        if ctx.tier != 'quick' or size == 32 and not SG.plain(ctx, SG.table(ctx, name))['b']:
            out.append((name + ' particular signatures', constants(name, 0)))
        if torsion(SG.canonical(ctx, SG.table(ctx, name)), G.Curve(*[SG.canonical(ctx, SG.table(ctx, name))[k] for k in 'pa']), size):
            out.append((name + ' public keys of small order', constants(name, 0, True)))
    return out

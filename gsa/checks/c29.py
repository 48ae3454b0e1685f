"""compare() and compare_to_zero() for every enumerated pair of lengths and
unknown contents (bytes and bytearray).  Completeness: the result is shown to be
the predicate "every byte is equal (zero)" in normal form; under assignments that
differ in one bit, in two bytes by the same or opposite amounts, in all bytes, or
not at all it has the defining value.  Data independence: every branch, short
circuit and comparison made on the way is recorded with the input bytes its
condition depends on; a condition that depends on a part of the bytes only, or an
equality operator applied to the contents, is a violation.  In verify(), analysed
over abstract points, no equality operator and no branch on a part of its bits is
applied to the recomputed value."""
import random
from ..common import *
from .. import core
from .. import evalform as EV
from .. import forms as F
from .. import zpoly as Z
from . import sigmodel as SG
from .c24 import BitDeps

ASSUMPTIONS = ['operations on integers of at most 30 bits and on single bytes take constant time', 'lengths are enumerated']


def bits_at(name, k, val):
    out = {}
    for j in range(8):
        f = F.atom(('in', name, 8 * k + j))
        out[f.bit_length() - 1] = val >> j & 1
    return out


def assign(name, data):
    out = {}
    for k, x in enumerate(data):
        out.update(bits_at(name, k, x))
    return out


def samples(n, r):
    """Pairs of byte strings of length n."""
    out = [(bytes(n), bytes(n)), (bytes([255] * n), bytes([255] * n))]
    a = r.randbytes(n)
    out.append((a, a))
    for k in range(n):
        for m in (1, 0x80, 0xff) if n <= 32 else (1 << k % 8,):
            b = bytearray(a)
            b[k] ^= m
            out.append((a, bytes(b)))
    for k in range(min(n - 1, 6)):
        i, j = k, n - 1 - k
        if i == j:
            continue
        for m in (1, 0x80, 0x40):
            b = bytearray(a)
            b[i] ^= m
            b[j] ^= m
            out.append((a, bytes(b)))
            b = bytearray(a)
            b[i] = (b[i] + m) & 255
            b[j] = (b[j] - m) & 255
            out.append((a, bytes(b)))
    if n:
        out.append((a, bytes(x ^ 255 for x in a)))
        out.append((a, bytes(x ^ 128 for x in a)))
        out.append((a, a[::-1]) )
        out.append((a, a[1:] + a[:1]))
    return out


class Judge:
    """Judges an event of the analysis when it happens."""

    def __init__(self, fn):
        self.append = fn


def show(ctx, name, kind, la, lb, zero=False):
    def run(ctx):
        it = ctx.it
        fn = ctx.get('utils', name)
        where = ctx.fwhere(fn)
        r = random.Random(repr((name, la, lb)))

        def body():
            a = ctx.sym('a', la, kind[0])
            args = [a] if zero else [a, ctx.sym('b', lb, kind[1])]
            it.timing = Judge(event)
            summ, it.summ = it.summ, None          # the branches of summarised functions count too
            try:
                return it.call(fn, args, {})
            finally:
                it.timing = None
                it.summ = summ

        def event(ev):
            kind_, e, w = ev
            ctx.items += 1
            if kind_ == 'branch':
                dep = d.cond(e)
                if dep and not dep >= whole:
                    raise Violation('%s: a branch depends on %d of %d content bytes' % (what, len(dep & whole), len(whole)), w)
            elif d.canon(e):
                raise Violation('%s: the contents are compared with an operator that stops at the first difference (%s)' % (
                    what, kind_), w)
        what = '%s of %s bytes' % (name, la if zero else '%d and %d' % (la, lb))
        d = BitDeps(it)
        whole = {('a', k) for k in range(la)} | (set() if zero else {('b', k) for k in range(lb)})
        for kind_, val, st in ctx.paths(body):
            facts = st[1]
            if kind_ == 'exc':
                if ctx.feasible(facts):
                    ctx.fail('%s raises %s' % (what, ctx.error_of(val)[0]), val.site)
                continue
            if kind_ == 'abandon':
                continue
            if not isinstance(val, (bool, SBool)):
                ctx.fail('%s returns %s' % (what, it.type_name(val)), where)
                continue
            if not zero and la != lb:
                ctx.items += 1
                if val is not False and (val is True or EV.separate(lambda v: v.cond(val.expr), facts)):
                    ctx.fail('%s is not False' % what, where)
                continue
            for a, b in samples(la, r):
                if zero:
                    b = bytes(x ^ y for x, y in zip(a, b))
                    fo, want = assign('a', b), not any(b)
                else:
                    fo, want = {**assign('a', a), **assign('b', b)}, a == b
                v = EV.Valuation(0, 'random', fo)
                if not EV.facts_hold(v, facts):
                    continue
                ctx.items += 1
                got = val if isinstance(val, bool) else bool(v.cond(val.expr))
                if got != want:
                    ctx.fail('%s is %s for %s' % (what, got, b.hex() if zero else '%s and %s' % (a.hex(), b.hex())), where)
                    break
            if isinstance(val, SBool) and not facts:
                form = tuple(x for k in range(la) for x in B.sym_bytes('a', la)[k].bits)
                if not zero:
                    form = tuple(x ^ y for x, y in zip(form, (x for e in B.sym_bytes('b', lb) for x in e.bits)))
                from ..values import allzero_cond
                if it.canon(val) == it.canon(it.mkbool(allzero_cond(form))):
                    ctx.sample.append('%s: the defining predicate in normal form' % what)
                else:
                    ctx.note('%s: not in the normal form of the defining predicate' % what)
    return run


def final(name):
    """verify() compares its last value through a data-independent comparison."""
    def run(ctx):
        it = ctx.it
        r = SG.abstract(ctx, name)
        if r is None:
            raise Unsupported('base point not found in the object')
        o, g, c = r
        size = SG.size_of(ctx, SG.table(ctx, name))
        X, Y = g.point(0, 1)
        pk = SG.enc(ctx, X, size) + SG.enc(ctx, Y, size)
        seen = set()
        count = [0, 0]

        def body():
            it.timing = Judge(event)
            summ, it.summ = it.summ, None          # the branches of summarised functions count too
            try:
                return ctx.call(o, 'verify', ctx.arr(pk), ctx.sym('digest', size), ctx.sym('sig', 2 * size))
            finally:
                it.timing = None
                it.summ = summ

        def event(ev):
            kind, e, w = ev
            count[0] += 1
            if not points(it, e):
                return
            count[1] += 1
            if kind == 'branch':
                nb = zbits(e)
                if nb is not None and nb < c['q'].bit_length() - 2 and (w not in seen):
                    seen.add(w)
                    ctx.fail('%s: a branch of the verification depends on %d bits of the recomputed value' % (name, nb), w)
            elif w not in seen:
                seen.add(w)
                ctx.fail('%s: the recomputed value is compared with an operator that stops at the first difference (%s)' % (
                    name, kind), w)
        ctx.paths(body)
        ctx.items += count[1] + 1
        ctx.sample.append('%s: %d conditions of verify, %d on the recomputed value' % (name, count[0], count[1]))
    return run


def points(it, e):
    """Coordinates of a combination of both points in a condition or a pair of canonical values."""
    out = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == 'i' and len(x) == 2 and isinstance(x[1], tuple):
            for f in x[1]:
                out |= pts_form(f)
        elif x[0] == 'iszero':
            for f in x[1]:
                out |= pts_form(f)
        elif x[0] == 'bit':
            out |= pts_form(x[1])
        elif x[0] in ('eq0', 'lt0', 'z'):
            out |= pts_poly(x[1])
        elif x[0] == 'eqmod':
            out |= pts_poly(x[1])
        else:
            stack.extend(y for y in x if isinstance(y, tuple))
    return out


def pts_form(f):
    out = set()
    for i in F.atoms_of(f):
        k = F.KEYS[i]
        if k[0] == 'zbit':
            out |= pts_poly(k[1])
    return out


def pts_poly(p):
    out = set()
    for a in Z.zatoms_in(p):
        k = Z.ZKEYS[a]
        if k[0] == 'pt' and k[2] and k[3]:
            out.add(a)
    return out


def zbits(e):
    """Number of bits of recomputed values a condition looks at (None: as a whole)."""
    n = set()

    def walk(x):
        if x[0] == 'iszero':
            for f in x[1]:
                for i in F.atoms_of(f):
                    if F.KEYS[i][0] == 'zbit':
                        n.add(i)
        elif x[0] == 'bit':
            for i in F.atoms_of(x[1]):
                if F.KEYS[i][0] == 'zbit':
                    n.add(i)
        elif x[0] == 'not':
            walk(x[1])
        elif x[0] == 'and':
            for y in x[1]:
                walk(y)
        else:
            n.add(None)
    walk(e)
    return None if None in n else len(n)


def obligations(ctx):
    out = []
    T = ctx.tier != 'quick'
    ls = list(range(0, 18)) + [31, 32, 33, 63, 64, 65] + ([100, 128, 255, 256, 257] if T else [128])
    K = ('bytearray', 'bytes')
    for n in ls:
        for i, k in enumerate(((K[0], K[0]), (K[1], K[1]), (K[0], K[1]), (K[1], K[0]))):
            if i < 2 or n in (0, 1, 32, 64) or T:
                out.append(('compare %d %s %s' % (n, k[0], k[1]), show(ctx, 'compare', k, n, n)))
        for k in K:
            out.append(('compare_to_zero %d %s' % (n, k), show(ctx, 'compare_to_zero', (k,), n, 0, True)))
    for a, b in [(0, 1), (1, 0), (1, 2), (2, 1), (31, 32), (32, 31), (32, 33), (64, 63), (64, 32), (32, 64), (5, 0), (0, 64), (16, 17), (17, 16)]:
        out.append(('compare %d with %d' % (a, b), show(ctx, 'compare', (K[0], K[0]), a, b)))
        out.append(('compare %d with %d (bytes)' % (a, b), show(ctx, 'compare', (K[1], K[1]), a, b)))
    for name in SG.tables(ctx):
        out.append(('verify, ' + name, final(name)))
    return out

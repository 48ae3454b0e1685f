"""derive(n) and hexderive(n) for an unknown password and salt are compared with
the term T1 || T2 || ... of R 50.1.111-2016 (gsa/spec/keyed.py) over the HMAC
built from the package's own hash, for enumerated password and salt lengths,
iteration counts and output sizes (including more than one block), first and repeated calls.  Without a salt one draw
of 32 bytes from the system's random source is made, used and reported.  More than 256 blocks and the default
iteration count are propagated as constants with the hash replaced by its
contract (an arbitrary fixed function of what was absorbed)."""
from ..common import *

WARM = ('hash', 'spec:keyed')
ASSUMPTIONS = ['the hash function is decided by C16', 'lengths, counts and sizes are enumerated']


def pb(ctx, pw, **kw):
    return ctx.fn('gostpbkdf', 'new', pw, **kw)


def one(pl, sl, count, sizes, kind):
    def run(ctx):
        def body():
            it = ctx.it
            mk = ctx.arr if kind == 'bytearray' else ctx.by
            h = hash_fn(ctx, 'streebog512')
            pw, salt = ctx.el(ctx.sym('pw', pl)), ctx.el(ctx.sym('salt', sl))
            want = ctx.el(ref(ctx, 'keyed', 'pbkdf', h, ctx.by(pw), ctx.by(salt), count, max(sizes)))
            o = pb(ctx, mk(pw), salt=mk(salt), counter=count)
            for i, n in enumerate(sizes):
                label = 'password of %d, salt of %d bytes, %d iterations, %d bytes' % (pl, sl, count, n)
                ctx.eq(ctx.call(o, 'derive', n), ctx.by(want[:n]), 'derive: %s: differs from the standard%s' % (
                    label, '' if i == 0 else ' (after earlier calls)'), ctx.where(o, 'derive'), content=True)
                if n <= 64:
                    ctx.eq(ctx.call(o, 'hexderive', n), it.hexstr(want[:n]), 'hexderive: %s: not the hexadecimal form'
                           % label, ctx.where(o, 'hexderive'))
            ctx.eq(ctx.attr(o, 'salt'), ctx.by(salt), 'salt is not the one given', ctx.where(o, 'salt'), content=True)
            ctx.sample.append('password of %d, salt of %d bytes, %d iterations, sizes %s' % (pl, sl, count, list(sizes)))
        ctx.scenario(body, 'pbkdf')
    return run


def nosalt(given):
    def run(ctx):
        def body():
            it = ctx.it
            h = hash_fn(ctx, 'streebog512')
            pw = ctx.el(ctx.sym('pw', 8))
            base = len(it.rand_calls)
            kw = {'salt': ctx.arr(())} if given else {}
            o = pb(ctx, ctx.arr(pw), counter=1, **kw)
            draws = it.rand_calls[base:]
            if len(draws) != 1 or draws[0][1] != 32:
                ctx.fail('without a salt the constructor draws %s from the random source' % [d[1] for d in draws], ctx.where(o, '__init__'))
                return
            salt = ctx.el(ctx.frozen(ctx.attr(o, 'salt')))
            if len(salt) != 32:
                ctx.fail('the generated salt has %d bytes' % len(salt), ctx.where(o, 'salt'))
                return
            src = set()
            from .. import core
            d = core.Deps(it)
            for x in salt:
                src |= d.canon(it.canon(x))
            if len({it.canon(x) for x in salt}) != 32 or not all(str(s).startswith('rand#') for s in src) or not src:
                ctx.fail('the generated salt is not the 32 bytes drawn', ctx.where(o, '__init__'))
            want = ref(ctx, 'keyed', 'pbkdf', h, ctx.by(pw), ctx.by(salt), 1, 32)
            ctx.eq(ctx.call(o, 'derive', 32), want, 'the key is not derived with the reported salt', ctx.where(o, 'derive'),
                   content=True)
            ctx.eq(ctx.call(o, 'derive', 32), want, 'a repeated derive differs', ctx.where(o, 'derive'), content=True)
            if len(it.rand_calls) != base + 1:
                ctx.fail('derive draws from the random source', ctx.where(o, 'derive'))
            p = pb(ctx, ctx.arr(pw), counter=1, **({'salt': ctx.arr(())} if given else {}))
            if it.canon(ctx.attr(p, 'salt')) == it.canon(ctx.arr(salt)):
                ctx.fail('two objects share one generated salt', ctx.where(o, '__init__'))
            ctx.items += 3
        ctx.scenario(body, 'pbkdf without salt')
    return run


def default_count(ctx):
    """The default iteration count is 1000 (over a summarised step)."""
    def body():
        o = pb(ctx, ctx.sym('pw', 8), salt=ctx.sym('salt', 8))
        p = pb(ctx, ctx.sym('pw', 8), salt=ctx.sym('salt', 8), counter=1000)
        if ctx.it.canon(o) != ctx.it.canon(p):
            ctx.fail('the default iteration count is not 1000', ctx.where(o, '__init__'))
        ctx.items += 1
    ctx.scenario(body, 'pbkdf default')


def constants(count, n):
    """A long run over constants, with the hash an arbitrary fixed function."""
    def run(ctx):
        ctx.it.summ = None

        def body():
            constant_hash(ctx)
            h = hash_fn(ctx, 'streebog512')
            pw, salt = ctx.by(b'password of the run'), ctx.by(b'salt')
            want = ref(ctx, 'keyed', 'pbkdf', h, pw, salt, count, n)
            o = pb(ctx, pw, salt=salt, **({} if count == 1000 else {'counter': count}))
            got = ctx.el(ctx.call(o, 'derive', n))
            if len(got) != n:
                ctx.fail('derive(%d) returns %d bytes' % (n, len(got)), ctx.where(o, 'derive'))
            for i in range(0, n, 64):
                if not ctx.eq(ctx.by(got[i:i + 64]), ctx.by(ctx.el(want)[i:i + 64]),
                              'derive with %d iterations: block %d of %d differs from the standard' % (count, i // 64 + 1,
                                                                                                      -(-n // 64)),
                              ctx.where(o, 'derive'), content=True):
                    break
        ctx.scenario(body, 'pbkdf')
    return run


def iterations(count):
    """A long run of iterations over constants, with HMAC an arbitrary fixed function."""
    def run(ctx):
        ctx.it.summ = None

        def body():
            import hashlib
            it = ctx.it
            constant_hash(ctx, hmac(ctx, 'HMAC_GOSTR3411_2012_512', ctx.by(b'key')))

            def prf(data):
                return hashlib.blake2b(data, digest_size=64).digest()

            def xor(a, b):
                return ctx.arr(tuple(x ^ y for x, y in zip(ctx.el(a), ctx.el(b))))
            cls = it.payload(pb(ctx, ctx.by(b'p'), salt=ctx.by(b's'), counter=1))[0]
            ns = getattr(cls.module, 'ns', None)
            if ns is not None and isinstance(ns.get('add_xor'), Func):
                ns['add_xor'] = native(xor, 'add_xor')
            salt = b'salt'
            u = prf(salt + bytes([0, 0, 0, 1]))
            acc = int.from_bytes(u, 'big')
            for _ in range(1, count):
                u = prf(u)
                acc ^= int.from_bytes(u, 'big')
            o = pb(ctx, ctx.by(b'password of the run'), salt=ctx.by(salt), counter=count)
            ctx.eq(ctx.call(o, 'derive', 16), ctx.by(tuple(acc.to_bytes(64, 'big')[:16])),
                   'derive with %d iterations differs from the standard' % count, ctx.where(o, 'derive'), content=True)
        ctx.scenario(body, 'many iterations')
    return run


def obligations(ctx):
    out = []
    cases = [(0, 1, 1, (32, 64, 1)), (8, 8, 2, (64, 65, 32)), (64, 32, 1, (128, 33)), (63, 9, 3, (32,)), (12, 60, 2, (40,)),
             (5, 64, 1, (65,)), (20, 100, 2, (31,))]
    if ctx.tier == 'thorough':
        cases += [(n, n + 1, 1 + n % 3, (64, 129, 7)) for n in range(1, 65, 7)] + [(16, 16, 9, (192,)), (16, 16, 40, (64,))]
    for i, (pl, sl, c, ns) in enumerate(cases):
        out.append(('password %d, salt %d, %d iterations' % (pl, sl, c), one(pl, sl, c, ns, ('bytearray', 'bytes')[i & 1])))
    out.append(('260 blocks over constants', constants(1, 260 * 64 - 9)))
    out.append(('default iterations over constants', constants(1000, 100)))
    if ctx.tier == 'thorough':
        out.append(('65540 blocks over constants', constants(1, 65540 * 64)))
    for v in thresholds(ctx, ('pbkdf', 'utils'), 10, 70000):
        if v in (32, 64, 127, 128, 255, 1000):
            continue
        if v > 40:
            out.append(('%d iterations and more over constants' % v, iterations(v + 2)))
        if v <= 8192:
            out.append(('%d blocks and more over constants' % v, constants(1, v * 64 + 70)))
    out.append(('no salt', nosalt(False)))
    out.append(('empty salt', nosalt(True)))
    out.append(('default iterations', default_count))
    return out

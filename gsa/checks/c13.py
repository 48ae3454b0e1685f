"""For each block cipher the terms decrypt(encrypt(b)) and encrypt(decrypt(b))
are computed over the GF(2)/table domain, without any function summary, for an
arbitrary key and an arbitrary block, and shown to be the term b itself.  The
constants and tables come from the current source.  A direction that does not
cancel is reported together with a separating valuation of the two terms."""
from ..common import *

ASSUMPTIONS = ['the key schedule is analysed for an arbitrary 256-bit key; the identity needs no relation between round keys']
KINDS = ('bytearray', 'bytes')


def one(alg, first, second, kind):
    def run(ctx):
        ctx.it.summ = None

        def body():
            bs = BS[alg]
            o = raw(ctx, alg, ctx.sym('key', 32, kind))
            b = ctx.sym('block', bs, kind)
            want = ctx.frozen(b)
            x = ctx.call(o, first, b)
            y = ctx.call(o, second, ctx.arr(ctx.el(x)) if kind == 'bytearray' else ctx.by(ctx.el(x)))
            ctx.eq(y, want, '%s: %s(%s(block)) is not the block' % (alg, second, first), ctx.where(o, second), content=True)
            if len(ctx.el(x)) != bs:
                ctx.fail('%s: %s returns %d bytes' % (alg, first, len(ctx.el(x))), ctx.where(o, first))
            ctx.sample.append('%s: %s(%s(b)) = b for a %s of %d unknown bytes' % (alg, second, first, kind, bs))
        ctx.scenario(body, '%s %s' % (alg, first))
    return run


def again(alg):
    """The round keys are the same after any call: several blocks with one object."""
    def run(ctx):
        ctx.it.summ = None

        def body():
            bs = BS[alg]
            o = raw(ctx, alg)
            x, y = ctx.sym('x', bs), ctx.sym('y', bs)
            wx, wy = ctx.frozen(x), ctx.frozen(y)
            c = ctx.call(o, 'encrypt', x)
            ctx.call(o, 'decrypt', y)
            d = ctx.call(o, 'encrypt', y)
            ctx.eq(ctx.call(o, 'decrypt', c), wx, '%s: a block encrypted before other calls is not restored' % alg,
                   ctx.where(o, 'decrypt'), content=True)
            ctx.eq(ctx.call(o, 'decrypt', d), wy, '%s: a block encrypted after other calls is not restored' % alg,
                   ctx.where(o, 'decrypt'), content=True)
        ctx.scenario(body, alg)
    return run


def obligations(ctx):
    out = []
    for a in ALGS:
        for f, s in (('encrypt', 'decrypt'), ('decrypt', 'encrypt')):
            for k in KINDS:
                out.append(('%s %s of %s, %s' % (a, s, f, k), one(a, f, s, k)))
        out.append(('%s interleaved calls' % a, again(a)))
    return out

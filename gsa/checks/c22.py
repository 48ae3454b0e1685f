"""The MAC of a message of n unknown bytes under an unknown key is compared, as
a term over the raw block cipher's encryption function, with the MAC equation
of GOST R 34.13-2015 (gsa/spec/modes.py): subkey derivation, chaining, choice of
the subkey and padding of the last block, for every length of an enumeration
around the block boundaries, every MAC size, and messages given to the
constructor, in one piece and in two pieces.  hexdigest is compared with the
hexadecimal form.  The block cipher below is represented by its summary, and in
one obligation per cipher analysed down to its normal form."""
from ..common import *

WARM = ('magma', 'kuznechik', 'spec:modes')
ASSUMPTIONS = ['the raw block cipher is decided by C15', 'message lengths are enumerated']


def one(alg, n):
    def run(ctx):
        def body():
            it, bs = ctx.it, BS[alg]
            key, msg = ctx.el(ctx.sym('key', 32)), ctx.el(ctx.sym('m', n))
            E, D = block_fns(ctx, alg, ctx.arr(key))
            want = ctx.el(ref(ctx, 'modes', 'mac', E, ctx.by(msg), bs))
            sizes = range(1, bs + 1) if n in (0, bs, bs + 1) else (1, bs // 2, bs)
            o = new(ctx, alg, 'MAC', ctx.arr(key))
            where = ctx.where(o, 'digest')
            ctx.call(o, 'update', ctx.arr(msg))
            for s in sizes:
                ctx.eq(ctx.call(o, 'digest', s), ctx.by(want[:s]),
                       'MAC %s of %d bytes, size %d, differs from the standard' % (alg, n, s), where, content=True)
                ctx.eq(ctx.call(o, 'hexdigest', s), it.hexstr(want[:s]),
                       'MAC %s: hexdigest of size %d is not the hexadecimal form' % (alg, s), ctx.where(o, 'hexdigest'))
            o = new(ctx, alg, 'MAC', ctx.by(key), data=ctx.by(msg))
            ctx.eq(ctx.call(o, 'digest', bs), ctx.by(want), 'MAC %s of %d bytes given to new() differs from the standard'
                   % (alg, n), where, content=True)
            if n > 1:
                o = new(ctx, alg, 'MAC', ctx.by(key))
                ctx.call(o, 'update', ctx.arr(msg[:n - 1]))
                ctx.call(o, 'update', ctx.arr(msg[n - 1:]))
                ctx.eq(ctx.call(o, 'digest', bs), ctx.by(want), 'MAC %s of %d bytes in two pieces differs from the standard'
                       % (alg, n), where, content=True)
            ctx.sample.append('MAC %s, every message of %d bytes' % (alg, n))
        ctx.scenario(body, 'MAC %s %d bytes' % (alg, n))
    return run


def exact(alg):
    """The same with the block cipher analysed down to its normal form."""
    def run(ctx):
        ctx.it.summ = None
        one(alg, BS[alg] // 2)(ctx)
    return run


def obligations(ctx):
    out = []
    for a in ALGS:
        bs = BS[a]
        ls = [0, 1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs, 3 * bs + 5, 5 * bs, 9 * bs + 1]
        if ctx.tier == 'thorough':
            ls = sorted(set(ls + list(range(0, 6 * bs + 1)) + [16 * bs, 33 * bs + 3]))
        ls += [n for n in around(thresholds(ctx, ('gost_34_13', 'utils'), bs + 1, 4096), bs, 6000) if n > 5 * bs and n not in ls]
        for n in ls:
            out.append(('MAC %s, %d bytes' % (a, n), one(a, n)))
        out.append(('MAC %s, without summaries' % a, exact(a)))
    return out

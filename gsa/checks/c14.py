"""In CTR mode the output of sequences of encrypt and decrypt calls, and the
counter attribute after each of them, are compared as terms with those of the
mode equation with a big-endian counter over the whole block.  First from
IV||0 for unknown IV, then inductively: every attribute of the object that holds
the counter is replaced by an unknown full-width value, so the comparison covers
every carry at every width, and finally over several hundred consecutive blocks.
A partial block must consume one counter value, an empty message none."""
from ..common import *
from .c16 import fields, put

WARM = ('magma', 'kuznechik', 'spec:modes')
ASSUMPTIONS = ['call sequences are enumerated; with the counter unknown they stand for any earlier history']


def seqs(bs):
    return [[bs], [2 * bs], [1, bs], [0, bs], [bs - 1, 0, 1, 2 * bs], [2 * bs + 3, bs], [bs, bs, bs, 5, 5]]


def check(ctx, alg, o, reg, label, sp, E, D):
    bs = BS[alg]
    for i, n in enumerate(sp):
        data = ctx.el(ctx.sym('d%d_%d' % (i, n), n))
        d = ('encrypt', 'decrypt')[i & 1]
        want, reg = ref(ctx, 'modes', 'ctr', E, D, reg, ctx.by(data), bs)
        ctx.eq(ctx.call(o, d, ctx.arr(data)), want, 'CTR %s %s: calls with %s bytes: output of the last differs from the '
               'counter equation' % (alg, label, sp[:i + 1]), ctx.where(o, d), content=True)
        ctx.eq(ctx.attr(o, 'counter'), reg, 'CTR %s %s: counter after calls with %s bytes' % (alg, label, sp[:i + 1]),
               ctx.where(o, 'encrypt'), content=True)


def one(alg, generic):
    def run(ctx):
        def body():
            it, bs = ctx.it, BS[alg]
            key = ctx.el(ctx.sym('key', 32))
            E, D = block_fns(ctx, alg, ctx.arr(key))
            iv = ctx.el(ctx.sym('iv', bs // 2))
            o = stream(ctx, alg, 'CTR', 1, None, ctx.arr(key), ctx.arr(iv))
            reg = ctx.by(iv + (0,) * (bs // 2))
            label = 'from the start'
            if generic:
                # the counter after one block is not any constant of the object
                f0 = {k: it.canon(v) for k, v in it.payload(o)[1].items()}
                data = ctx.el(ctx.sym('first', bs))
                _, reg = ref(ctx, 'modes', 'ctr', E, D, reg, ctx.by(data), bs)
                ctx.call(o, 'encrypt', ctx.arr(data))
                fs = fields(it, o, ctx.el(reg))
                f1 = {k: it.canon(v) for k, v in it.payload(o)[1].items()}
                if not fs or {k for k in f1 if f0.get(k) != f1[k]} - {f[0] for f in fs}:
                    ctx.note('the counter is not held in one attribute; only the other obligations apply')
                    return
                c = ctx.el(ctx.sym('counter', bs))
                for f in fs:
                    put(it, o, f, c)
                reg = ctx.by(c)
                label = 'from an arbitrary counter'
            start = it.snapshot()
            for sp in seqs(bs):
                it.restore(start)
                check(ctx, alg, o, reg, label, sp, E, D)
            ctx.sample.append('CTR %s %s: %d call sequences' % (alg, label, len(seqs(bs))))
        ctx.scenario(body, 'CTR %s' % alg)
    return run


def long(alg, nblocks):
    def run(ctx):
        def body():
            it, bs = ctx.it, BS[alg]
            key = ctx.el(ctx.sym('key', 32))
            E, D = block_fns(ctx, alg, ctx.arr(key))
            for iv in (ctx.el(ctx.sym('iv', bs // 2)), (255,) * (bs // 2)):
                o = stream(ctx, alg, 'CTR', 1, None, ctx.arr(key), ctx.arr(iv))
                reg = ctx.by(iv + (0,) * (bs // 2))
                n = bs * nblocks
                data = ctx.el(ctx.sym('d', n))
                want, reg = ref(ctx, 'modes', 'ctr', E, D, reg, ctx.by(data), bs)
                ctx.eq(ctx.call(o, 'encrypt', ctx.arr(data)), want, 'CTR %s: %d blocks in one call differ from the counter '
                       'equation' % (alg, nblocks), ctx.where(o, 'encrypt'), content=True)
                ctx.eq(ctx.attr(o, 'counter'), reg, 'CTR %s: counter after %d blocks' % (alg, nblocks),
                       ctx.where(o, 'encrypt'), content=True)
        ctx.scenario(body, 'CTR %s' % alg)
    return run


def obligations(ctx):
    out = []
    for a in ALGS:
        out.append(('CTR %s, from the initialization vector' % a, one(a, False)))
        out.append(('CTR %s, from an arbitrary counter' % a, one(a, True)))
        out.append(('CTR %s, many blocks' % a, long(a, 300 if ctx.tier == 'quick' else 1100)))
    return out

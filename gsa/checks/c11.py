"""For CBC, CFB, OFB and CTR, both directions, both ciphers and shift registers
of one to three blocks: after processing messages whose lengths are multiples
of the block size (and a last one of any enumerated length) with one object, the
outputs concatenated are shown to be the term of one call on the concatenation,
and the iv or counter attribute after every call is shown to be the last block
of the shift register (the counter block) that the mode equations prescribe for
the blocks processed so far.  CBC encryption uses padding procedure 1."""
from ..common import *

WARM = ('magma', 'kuznechik', 'spec:modes')
ASSUMPTIONS = ['lengths and split positions are enumerated', 'the raw block cipher is decided by C15']


def splits(bs, m, d, tier, nreg=1):
    if nreg > 3:
        k = nreg * bs
        return [[k, bs, bs], [bs, k + bs, 0 if d == 'decrypt' or m != 'CBC' else bs], [bs] * (nreg + 2) + [bs],
                [(nreg + 3) * bs, bs + (2 if m != 'CBC' else 0)]]
    last = [0, 1, bs - 1, bs, bs + 2]
    if m == 'CBC':
        last = [0, bs, 2 * bs] if d == 'decrypt' else [1, bs, bs + 2]
    out = []
    for f in ([bs], [2 * bs], [bs, bs], [bs, 2 * bs], [3 * bs, bs, bs]):
        for l in last:
            out.append(f + [l])
    if not (m == 'CBC' and d == 'encrypt'):
        out += [[0, bs, bs], [bs, 0, bs], [0, 0, 2 * bs]]
    if tier == 'thorough':
        out += [[bs] * k + [l] for k in range(4, 12) for l in last]
    return out


def one(alg, m, d, nreg, sps=None):
    def run(ctx):
        def body():
            it, bs = ctx.it, BS[alg]
            key = ctx.el(ctx.sym('key', 32))
            E, D = block_fns(ctx, alg, ctx.arr(key))
            iv = ctx.el(ctx.sym('iv', bs // 2 if m == 'CTR' else bs * nreg))
            o = stream(ctx, alg, m, nreg, 1, ctx.arr(key), ctx.arr(iv))
            attr = 'counter' if m == 'CTR' else 'iv'
            first = ctx.by(iv + (0,) * (bs // 2)) if m == 'CTR' else ctx.by(iv)
            start = it.snapshot()

            def seen(reg, what):
                r = ctx.el(reg)
                want = r if m == 'CTR' else r[len(r) - bs:]
                ctx.eq(ctx.attr(o, attr), ctx.by(want), '%s %s %s: %s %s is not the one of the blocks processed' % (
                    m, alg, d, attr, what), ctx.where(o, attr), content=True)

            def adv(reg, data):
                if m == 'CTR':
                    return ref(ctx, 'modes', 'ctr', E, D, reg, data, bs)[1]
                if m == 'OFB':
                    return ref(ctx, 'modes', 'ofb', E, D, reg, data, bs)[1]
                return ref(ctx, 'modes', '%s_%s' % (m.lower(), d[:3]), E, D, reg, data, bs)[1]
            seen(first, 'of a new object')
            for sp in sps or splits(bs, m, d, ctx.tier, nreg):
                it.restore(start)
                data = ctx.el(ctx.sym('data', sum(sp)))
                one_call = ctx.frozen(ctx.call(o, d, ctx.arr(data)))
                it.restore(start)
                out, pos, reg = (), 0, first
                for i, n in enumerate(sp):
                    piece = data[pos:pos + n]
                    pos += n
                    out += ctx.el(ctx.call(o, d, (ctx.by if i & 1 else ctx.arr)(piece)))
                    p = piece
                    if m == 'CBC' and d == 'encrypt':
                        p = piece + (0,) * ((-n) % bs)
                    reg = adv(reg, ctx.by(p))
                    seen(reg, 'after messages of %s bytes' % sp[:i + 1])
                ctx.eq(ctx.by(out), one_call, '%s %s %s: messages of %s bytes one after the other differ from one call' % (
                    m, alg, d, sp), ctx.where(o, d), content=True)
            ctx.sample.append('%s %s %s, register of %d blocks: %d splittings' % (m, alg, d, nreg,
                                                                                 len(splits(bs, m, d, ctx.tier))))
        ctx.scenario(body, '%s %s %s' % (m, alg, d))
    return run


def mixed(alg, m):
    """Encrypt and decrypt calls on one object in CTR and OFB advance the same gamma."""
    def run(ctx):
        def body():
            it, bs = ctx.it, BS[alg]
            o = stream(ctx, alg, m, 1)
            data = ctx.el(ctx.sym('data', 4 * bs))
            start = it.snapshot()
            want = ctx.frozen(ctx.call(o, 'encrypt', ctx.arr(data)))
            it.restore(start)
            out = ()
            for i, d in enumerate(('encrypt', 'decrypt', 'decrypt', 'encrypt')):
                out += ctx.el(ctx.call(o, d, ctx.arr(data[i * bs:(i + 1) * bs])))
            ctx.eq(ctx.by(out), want, '%s %s: alternating encrypt and decrypt calls do not continue the gamma' % (m, alg),
                   ctx.where(o, 'decrypt'), content=True)
        ctx.scenario(body, '%s %s mixed' % (m, alg))
    return run


def obligations(ctx):
    out = []
    for a in ALGS:
        for m in ('CBC', 'CFB', 'OFB', 'CTR'):
            for d in ('encrypt', 'decrypt'):
                for nreg in ((1,) if m == 'CTR' else (1, 2, 3, 5) if ctx.tier == 'quick' else (1, 2, 3, 4, 5, 8, 16)):
                    out.append(('%s %s %s, register %d' % (m, a, d, nreg), one(a, m, d, nreg)))
            bs = BS[a]
            vs = [x - x % bs for x in around(thresholds(ctx, ('gost_34_13', 'utils'), 3 * bs, 2048), bs, 5000)]
            sps = [[x, bs] for x in sorted(set(vs))]
            cs = [v for v in thresholds(ctx, ('gost_34_13', 'utils'), 12, 600) if v not in (16, 128, 255)]
            sps += [[bs] * (v + 2) for v in cs]
            if sps:
                for d in ('encrypt', 'decrypt'):
                    out.append(('%s %s %s, lengths named in the code' % (m, a, d), one(a, m, d, 1, sps)))
            if m in ('CTR', 'OFB'):
                out.append(('%s %s, mixed calls' % (m, a), mixed(a, m)))
    return out

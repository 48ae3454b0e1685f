"""For every mode, cipher, shift-register size, padding procedure and an
enumeration of data lengths, the term decrypt(encrypt(data)) with two objects of
the same parameters is shown to be the data, followed in ECB and CBC by the
padding of the procedure.  Key, initialization vector and data are unknown.  The
block cipher's two directions cancel only because their composition was shown
to be the identity from the source; otherwise the comparison is repeated on the
full normal forms."""
from ..common import *
from .c23 import lengths, padded

WARM = ('magma', 'kuznechik')
ASSUMPTIONS = ['data lengths and register sizes are enumerated', 'the padding may be the recorded longer form of PAD_MODE_2']


def one(alg, m, nreg, padm, default, kind, ls=None):
    def run(ctx):
        def body():
            it, bs = ctx.it, BS[alg]
            key = ctx.el(ctx.sym('key', 32))
            mk = ctx.arr if kind == 'bytearray' else ctx.by

            def make():
                if default:
                    return new(ctx, alg, m, mk(key))
                iv = ctx.el(ctx.sym('iv', bs // 2 if m == 'CTR' else bs * nreg))
                return stream(ctx, alg, m, nreg, padm, mk(key), mk(iv))
            a, b = make(), make()
            start = it.snapshot()
            for n in ls or (lengths(bs, ctx.tier) if nreg < 4 else (0, bs, (nreg + 1) * bs, (2 * nreg + 1) * bs + 3)):
                it.restore(start)
                data = ctx.el(ctx.sym('data', n))
                c = ctx.call(a, 'encrypt', mk(data))
                p = ctx.el(ctx.call(b, 'decrypt', mk(ctx.el(c))))
                label = '%s %s, %d bytes%s%s' % (m, alg, n, ', %d-block register' % nreg if nreg > 1 else '',
                                                 ', padding mode %d' % padm if padm else '')
                want = data
                if m in ('ECB', 'CBC'):
                    want = padded(ctx, data, bs, padm or 1, len(p))
                    if want is None:
                        ctx.fail('%s: decrypt returns %d bytes' % (label, len(p)), ctx.where(b, 'decrypt'))
                        continue
                ctx.eq(ctx.by(p), ctx.by(want), '%s: decrypt(encrypt(data)) is not the data' % label,
                       ctx.where(b, 'decrypt'), content=True)
            ctx.sample.append('%s %s, register of %d blocks, padding %s' % (m, alg, nreg, padm))
        ctx.scenario(body, '%s %s' % (m, alg))
    return run


def obligations(ctx):
    out = []
    for a in ALGS:
        for m in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR'):
            for nreg in ((1,) if m in ('ECB', 'CTR') else (1, 2, 3, 5, 8) if ctx.tier == 'quick' else (1, 2, 3, 4, 5, 7, 8, 16, 17)):
                for padm in ((1, 2) if m in ('ECB', 'CBC') else (None,)):
                    for kind in ('bytearray', 'bytes') if nreg == 1 else ('bytearray',):
                        out.append(('%s %s, register %d%s, %s' % (m, a, nreg, ', padding %d' % padm if padm else '', kind),
                                    one(a, m, nreg, padm, False, kind)))
            ls = around(thresholds(ctx, ('gost_34_13', 'utils'), 2 * BS[a] + 1, 4096), BS[a], 9000)
            for padm in ((1, 2) if m in ('ECB', 'CBC') else (None,)):
                if ls:
                    out.append(('%s %s%s, lengths named in the code' % (m, a, ', padding %d' % padm if padm else ''),
                                one(a, m, 1, padm, False, 'bytearray', ls)))
            out.append(('%s %s, default parameters' % (m, a), one(a, m, 1, None, True, 'bytearray')))
    return out

"""For each mode, cipher, direction, shift-register size and an enumeration of
data lengths around the block boundaries, the output of encrypt() or decrypt()
on unknown data under an unknown key and initialization vector is compared, as a
term over the raw block cipher's functions, with the mode equation of
GOST R 34.13-2015 (gsa/spec/modes.py).  Padding procedures 1 and 2 are part of
the comparison for ECB and CBC; the default initialization vectors are compared
through the same equations.  One obligation per cipher and mode repeats a
two-block case with the block cipher analysed down to its normal form."""
from ..common import *

WARM = ('magma', 'kuznechik', 'spec:modes')
ASSUMPTIONS = ['the raw block cipher is decided by C15', 'data lengths and register sizes are enumerated',
               'for an empty message procedure 1 may add nothing or one block']
EXTRA = 'PAD_MODE_2 appends a whole extra block of zeros to a message that is not a multiple of the block size'


def lengths(bs, tier):
    ls = [0, 1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 3, 3 * bs, 4 * bs + 5]
    if tier == 'thorough':
        ls = sorted(set(ls + list(range(0, 5 * bs + 1)) + [9 * bs, 17 * bs + 1]))
    return ls


def padded(ctx, data, bs, padm, outlen):
    """The padded message of the given length allowed by the procedure, or None."""
    n = len(data)
    z = (-n) % bs
    if padm == 1:
        if outlen == n + z or (n == 0 and outlen == bs):
            return data + (0,) * (outlen - n)
        return None
    m = n + z if z else n + bs
    if outlen == m or (outlen == m + bs and (z or n == 0)):
        return data + (0x80,) + (0,) * (outlen - n - 1)
    return None


def judge(ctx, alg, m, d, nreg, padm, n, o, E, D, reg, data):
    it, bs = ctx.it, BS[alg]
    label = '%s %s %s%s of %d bytes%s' % (m, alg, d, ' with a %d-block register' % nreg if nreg > 1 else '', n,
                                         ', padding mode %d' % padm if padm and d == 'encrypt' else '')
    where = ctx.where(o, d)
    got = ctx.el(ctx.call(o, d, (ctx.arr if n % 2 else ctx.by)(data)))
    src = data
    if m in ('ECB', 'CBC') and d == 'encrypt':
        src = padded(ctx, data, bs, padm, len(got))
        if src is None:
            ctx.fail('%s: output of %d bytes' % (label, len(got)), where)
            return
        if padm == 2 and len(src) > n + bs:
            ctx.fail(EXTRA, ctx.where(o, '_set_pad_mode_2') or where)
    elif len(got) != n:
        ctx.fail('%s: output of %d bytes' % (label, len(got)), where)
        return
    a = ctx.by(src)
    if m == 'ECB':
        want = ref(ctx, 'modes', 'ecb', E if d == 'encrypt' else D, a, bs)
        st = None
    elif m == 'CTR':
        want, st = ref(ctx, 'modes', 'ctr', E, D, reg, a, bs)
    elif m == 'OFB':
        want, st = ref(ctx, 'modes', 'ofb', E, D, reg, a, bs)
    else:
        want, st = ref(ctx, 'modes', '%s_%s' % (m.lower(), d[:3]), E, D, reg, a, bs)
    ctx.eq(ctx.by(got), want, '%s differs from the standard' % label, where, content=True)


def one(alg, m, d, nreg, padm, precise=False, ls=None):
    def run(ctx):
        if precise:
            ctx.it.summ = None

        def body():
            it, bs = ctx.it, BS[alg]
            key = ctx.el(ctx.sym('key', 32))
            E, D = block_fns(ctx, alg, ctx.arr(key))
            iv = ctx.el(ctx.sym('iv', bs // 2 if m == 'CTR' else bs * nreg))
            o = stream(ctx, alg, m, nreg, padm, ctx.arr(key), ctx.arr(iv))
            reg = ctx.by(iv + (0,) * (bs // 2)) if m == 'CTR' else ctx.by(iv)
            start = it.snapshot()
            for n in ls or (lengths(bs, ctx.tier) if nreg < 4 else (0, bs, nreg * bs + 1, (2 * nreg + 2) * bs)):
                if d == 'decrypt' and m in ('ECB', 'CBC') and n % bs:
                    continue
                it.restore(start)
                judge(ctx, alg, m, d, nreg, padm, n, o, E, D, reg, ctx.el(ctx.sym('data', n)))
            ctx.sample.append('%s %s %s, register of %d blocks, padding %s' % (m, alg, d, nreg, padm))
        ctx.scenario(body, '%s %s %s' % (m, alg, d))
    return run


def defaults(alg, m):
    """Without an initialization vector the documented default one is used: encryption and decryption agree with the
    equations for the vector the object reports."""
    def run(ctx):
        def body():
            it, bs = ctx.it, BS[alg]
            key = ctx.el(ctx.sym('key', 32))
            E, D = block_fns(ctx, alg, ctx.arr(key))
            o = new(ctx, alg, m, ctx.arr(key))
            data = ctx.el(ctx.sym('data', 3 * bs))
            if m == 'CTR':
                reg = ctx.frozen(ctx.attr(o, 'counter'))
                if any(x != 0 for x in ctx.el(reg)[bs // 2:]):
                    ctx.fail('%s %s: the default counter does not start at zero' % (m, alg), ctx.where(o, '__init__'))
                start = it.snapshot()
                for d in ('encrypt', 'decrypt'):
                    it.restore(start)
                    judge(ctx, alg, m, d, 1, None, 3 * bs, o, E, D, reg, data)
                return
            start = it.snapshot()
            # the first block gives the register block by block: encrypting through the object itself
            c = ctx.el(ctx.frozen(ctx.call(o, 'encrypt', ctx.arr(data))))
            it.restore(start)
            p = ctx.call(o, 'decrypt', ctx.arr(c[:3 * bs]))
            ctx.eq(p, ctx.by(data), '%s %s with the default initialization vector: decrypt does not restore the data'
                   % (m, alg), ctx.where(o, 'decrypt'), content=True)
        ctx.scenario(body, '%s %s default' % (m, alg))
    return run


def obligations(ctx):
    out = []
    for a in ALGS:
        for m in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR'):
            for d in ('encrypt', 'decrypt'):
                for nreg in ((1,) if m in ('ECB', 'CTR') else (1, 2, 3, 5, 8) if ctx.tier == 'quick' else (1, 2, 3, 4, 5, 8, 16, 17)):
                    for padm in ((1, 2) if m in ('ECB', 'CBC') and d == 'encrypt' else (1,) if m in ('ECB', 'CBC') else (None,)):
                        if nreg >= 3 and padm == 2:
                            continue
                        out.append(('%s %s %s, register %d%s' % (m, a, d, nreg, ', padding %d' % padm if padm else ''),
                                    one(a, m, d, nreg, padm)))
                ls = around(thresholds(ctx, ('gost_34_13', 'utils'), 2 * BS[a] + 1, 4096), BS[a], 9000)
                for padm in ((1, 2) if m in ('ECB', 'CBC') and d == 'encrypt' else (1,) if m in ('ECB', 'CBC') else (None,)):
                    if ls:
                        out.append(('%s %s %s%s, lengths named in the code' % (m, a, d, ', padding %d' % padm if padm else ''),
                                    one(a, m, d, 1, padm, False, ls)))
                out.append(('%s %s %s, without summaries' % (m, a, d),
                            one(a, m, d, 1, 1 if m in ('ECB', 'CBC') else None, True, (BS[a], 2 * BS[a]))))
            if m != 'ECB':
                out.append(('%s %s, default vector' % (m, a), defaults(a, m)))
    return out

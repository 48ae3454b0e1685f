"""Both block ciphers and both directions are evaluated, without summaries, to
their normal form for an arbitrary key and an arbitrary block and compared with
the normal form of the definition in GOST R 34.12-2015 (gsa/spec: substitution
tables, coefficients of the linear transformation, key schedule and rounds
written from the standard and analysed in the same domain).  Every public
attribute that fixes a size is compared with the standard."""
from ..common import *

WARM = ('spec:kuznechik', 'spec:magma')
ASSUMPTIONS = ['gsa/spec/kuznechik.py and gsa/spec/magma.py state the standard; they are checked against its test vectors by '
               'tools/selftest.py']


def one(alg, meth, kind):
    def run(ctx):
        ctx.it.summ = None

        def body():
            bs = BS[alg]
            sp = spec(ctx, alg)
            key, b = ctx.el(ctx.sym('key', 32)), ctx.el(ctx.sym('block', bs))
            mk = ctx.arr if kind == 'bytearray' else ctx.by
            keys = ctx.it.call(sp['round_keys'], [ctx.by(key)], {})
            want = ctx.frozen(ctx.it.call(sp[meth], [keys, ctx.by(b)], {}))
            o = raw(ctx, alg, mk(key))
            got = ctx.call(o, meth, mk(b))
            ctx.eq(got, want, '%s %s differs from the standard' % (alg, meth), ctx.where(o, meth), content=True)
            for n, v in (('block_size', bs), ('key_size', 32)):
                ctx.eq(ctx.attr(o, n), v, '%s: %s' % (alg, n), ctx.where(o, n))
            ctx.sample.append('%s %s: %d output bits equal to the standard for every key and block' % (alg, meth, 8 * bs))
        ctx.scenario(body, '%s %s' % (alg, meth))
    return run


def via_mode(alg, meth):
    """The mode objects use the same permutation (ECB of one block)."""
    def run(ctx):
        ctx.it.summ = None

        def body():
            bs = BS[alg]
            sp = spec(ctx, alg)
            key, b = ctx.el(ctx.sym('key', 32)), ctx.el(ctx.sym('block', bs))
            keys = ctx.it.call(sp['round_keys'], [ctx.by(key)], {})
            want = ctx.frozen(ctx.it.call(sp[meth], [keys, ctx.by(b)], {}))
            o = new(ctx, alg, 'ECB', ctx.arr(key))
            ctx.eq(ctx.call(o, meth, ctx.arr(b)), want, '%s ECB %s of one block differs from the standard' % (alg, meth),
                   ctx.where(o, meth), content=True)
        ctx.scenario(body, '%s ECB %s' % (alg, meth))
    return run


def obligations(ctx):
    out = []
    for a in ALGS:
        for m in ('encrypt', 'decrypt'):
            for k in ('bytearray', 'bytes'):
                out.append(('%s %s, %s' % (a, m, k), one(a, m, k)))
            out.append(('%s ECB %s' % (a, m), via_mode(a, m)))
    return out

"""For both HMAC algorithms, an enumeration of key lengths from 0 to 64 bytes
and of message lengths around the block boundaries, the digest under an unknown
key of an unknown message (given to the constructor, in one piece, in several
pieces, or not at all) is compared with the term
H((K xor opad) || H((K xor ipad) || message)) of R 50.1.113-2016 over the package's
own hash of the named size.  hexdigest, sizes, name and object identifier are
compared with those of the standard."""
from ..common import *

WARM = ('hash', 'spec:keyed')
ASSUMPTIONS = ['the hash function is decided by C16', 'key and message lengths are enumerated']
H = {HMACS[0]: ('streebog256', 32, '1.2.643.7.1.1.4.1'), HMACS[1]: ('streebog512', 64, '1.2.643.7.1.1.4.2')}


def one(name, kl, ls, kind):
    def run(ctx):
        def body():
            it = ctx.it
            hn, size, oid = H[name]
            mk = ctx.arr if kind == 'bytearray' else ctx.by
            h = hash_fn(ctx, hn)
            key = ctx.el(ctx.sym('key', kl))
            o = hmac(ctx, name, mk(key))
            where = ctx.where(o, 'digest')
            for a, v in (('digest_size', size), ('block_size', 64), ('name', name)):
                ctx.eq(ctx.attr(o, a), v, '%s: %s' % (name, a), ctx.where(o, a))
            ctx.eq(ctx.fn('utils', 'compare', ctx.attr(ctx.attr(o, 'oid'), 'octet'),
                          ctx.attr(ctx.fn('gostoid', 'ObjectIdentifier', oid), 'octet')), True,
                   '%s: object identifier is not %s' % (name, oid), ctx.where(o, '__init__'))
            start = it.snapshot()
            for n in ls:
                it.restore(start)
                msg = ctx.el(ctx.sym('m', n))
                want = ctx.frozen(ref(ctx, 'keyed', 'hmac', h, ctx.by(key), ctx.by(msg)))
                base = it.snapshot()
                label = '%s, %d-byte key, message of %d bytes' % (name, kl, n)
                for cs in ((), (n // 2,), (0, 1, n), (min(64, n),)):
                    it.restore(base)
                    if cs == (0, 1, n) and n < 1:
                        continue
                    for a, b in pieces(n, cs):
                        ctx.call(o, 'update', mk(msg[a:b]))
                    ctx.eq(ctx.call(o, 'digest'), want, '%s%s: differs from the standard' % (
                        label, ' split at %s' % list(cs) if cs else ''), where, content=True)
                it.restore(base)
                p = hmac(ctx, name, mk(key), data=mk(msg))
                ctx.eq(ctx.call(p, 'digest'), want, '%s given to new(): differs from the standard' % label, where,
                       content=True)
                ctx.eq(ctx.call(p, 'hexdigest'), it.hexstr(ctx.el(want)), '%s: hexdigest is not the hexadecimal form' % label,
                       ctx.where(p, 'hexdigest'))
                if n == 0:
                    it.restore(base)
                    p = hmac(ctx, name, mk(key))
                    ctx.eq(ctx.call(p, 'digest'), want, '%s without any update: differs from the standard' % label, where,
                           content=True)
                    ctx.eq(ctx.call(p, 'digest'), want, '%s, second digest without any update: differs' % label, where,
                           content=True)
                    ctx.call(p, 'update', mk(()))
                    ctx.eq(ctx.call(p, 'digest'), want, '%s after an empty update: differs' % label, where, content=True)
            ctx.sample.append('%s with a %d-byte key: messages of %s bytes' % (name, kl, list(ls)))
        ctx.scenario(body, name)
    return run


def keys(name, kls):
    """Every key length with one short message."""
    def run(ctx):
        def body():
            it = ctx.it
            h = hash_fn(ctx, H[name][0])
            start = it.snapshot()
            for kl in kls:
                it.restore(start)
                for mk in (ctx.arr, ctx.by):
                    key, msg = ctx.el(ctx.sym('key', kl)), ctx.el(ctx.sym('m', 3))
                    o = hmac(ctx, name, mk(key))
                    ctx.call(o, 'update', mk(msg))
                    ctx.eq(ctx.call(o, 'digest'), ref(ctx, 'keyed', 'hmac', h, ctx.by(key), ctx.by(msg)),
                           '%s with a key of %d bytes differs from the standard' % (name, kl), ctx.where(o, '__init__'),
                           content=True)
        ctx.scenario(body, name)
    return run


def reused(name):
    """digest() before, between and after updates, and again after reset()."""
    def run(ctx):
        def body():
            h = hash_fn(ctx, H[name][0])
            key, msg = ctx.el(ctx.sym('key', 40)), ctx.el(ctx.sym('m', 70))
            o = hmac(ctx, name, ctx.arr(key))
            want = lambda m: ref(ctx, 'keyed', 'hmac', h, ctx.by(key), ctx.by(m))
            for r in range(2):
                done = ()
                for i, n in enumerate((0, 5, 64, 1)):
                    ctx.call(o, 'update', ctx.arr(msg[len(done):len(done) + n])) if n else None
                    done += msg[len(done):len(done) + n]
                    ctx.eq(ctx.call(o, 'digest'), want(done), '%s: digest after %d bytes of an object in use%s differs from '
                           'the standard' % (name, len(done), ' and reset' if r else ''), ctx.where(o, 'digest'), content=True)
                ctx.call(o, 'reset')
        ctx.scenario(body, name)
    return run


def obligations(ctx):
    out = []
    kls = (0, 1, 31, 32, 33, 63, 64) if ctx.tier == 'quick' else range(0, 65)
    for name in HMACS:
        for a in range(0, 65, 13):
            out.append(('%s, every key length from %d to %d' % (name, a, min(64, a + 12)), keys(name, range(a, min(65, a + 13)))))
    for name in HMACS:
        for i, kl in enumerate(kls):
            ls = (0, 1, 63, 64, 65, 130) if kl in (32, 64) or ctx.tier == 'thorough' else (0, 5, 64)
            out.append(('%s, %d-byte key' % (name, kl), one(name, kl, ls, ('bytearray', 'bytes')[i & 1])))
        for kl in (32, 64):
            out.append(('%s, %d-byte key, other argument type' % (name, kl),
                        one(name, kl, (0, 3), ('bytes', 'bytearray')[kl == 32])))
        out.append(('%s, object in use' % name, reused(name)))
        ls = [n for n in around(thresholds(ctx, ('gosthmac',), 131, 4096), 64, 5000) if n > 130]
        if ls:
            out.append(('%s, lengths named in the code' % name, one(name, 32, tuple(ls), 'bytearray')))
    return out

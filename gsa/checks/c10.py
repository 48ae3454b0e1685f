"""For every absorbing object (hash, HMAC, block-cipher MAC) and every total
length of a partition of lengths around the block boundaries, the digest after
any of the enumerated splittings of a message of unknown bytes (constructor
data, empty pieces, short pieces, pieces ending on a boundary) is shown to be
the same term as the digest after one update with the whole message.
Rule: equality of normal forms (GF(2) forms over uninterpreted compression and
encryption functions) for all message bytes and keys."""
from ..common import *

WARM = ('magma', 'kuznechik', 'hash')
ASSUMPTIONS = ['lengths and split positions are enumerated; contents and keys are arbitrary']


def cuts(n, bs, tier):
    """Split positions worth distinguishing for a message of n bytes."""
    pts = sorted(set(x for x in (0, 1, 2, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs, n - bs, n - 1, n)
                     if 0 <= x <= n))
    if tier == 'thorough':
        pts = sorted(set(pts) | set(range(0, n + 1, max(1, n // 40))))
    out = [(a,) for a in (range(n + 1) if n >= 3 * bs else pts)]
    if tier == 'thorough':
        pairs = [(a, b) for a in pts for b in pts if a <= b]
    else:
        k = [x for x in (0, 1, bs - 1, bs, bs + 1, 2 * bs, n) if x in pts]
        pairs = [(a, b) for a in k for b in k if a <= b]
        if len(pairs) > 12:
            pairs = [(a, b) for a, b in pairs if (b - a) in (0, 1, bs - 1, bs, n) or b == n][:12]
    out += pairs
    out.append(tuple(range(0, n + 1, max(1, bs // 2))))
    out.append(tuple(range(1, n + 1, bs + 1)))
    out.append((n, n, n))
    if n <= 40:
        out.append(tuple(range(n + 1)))
    if n >= 3 * bs:
        out.append((1, bs, bs + 1, 2 * bs, 3 * bs))
        out.append((bs - 1, bs + 1, 2 * bs + 1, 3 * bs - 1))
    return list(dict.fromkeys(out))


KINDS = [('hash ' + h, h, 64) for h in HASHES] + [('hmac ' + h, h, 64) for h in HMACS] + \
    [('mac ' + a, a, BS[a]) for a in ALGS]


def make(ctx, kind, name, data=None):
    kw = {} if data is None else {'data': data}
    if kind.startswith('hash'):
        return hash_(ctx, name, **kw)
    if kind.startswith('hmac'):
        return hmac(ctx, name, **kw)
    return new(ctx, name, 'MAC', **kw)


def digest_full(ctx, kind, name, o):
    return ctx.call(o, 'digest', *([BS[name]] if kind.startswith('mac') else []))


def one(kind, name, bs, n):
    def run(ctx):
        def body():
            msg = ctx.el(ctx.sym('m', n))
            base = make(ctx, kind, name)
            start = ctx.it.snapshot()
            whole = base
            ctx.call(whole, 'update', ctx.arr(msg))
            want = ctx.frozen(digest_full(ctx, kind, name, whole))
            where = ctx.where(whole, 'update')
            count = 0
            for j, cs in enumerate(cuts(n, bs, ctx.tier)):
                ps = pieces(n, cs)
                for ctor in (False, True):
                    if ctor and (len(cs) > 1 or (name == 'kuznechik' and j % 3 and ctx.tier == 'quick')):
                        continue
                    ctx.it.restore(start)
                    if ctor:
                        o = make(ctx, kind, name, (ctx.by if j & 1 else ctx.arr)(msg[ps[0][0]:ps[0][1]]))
                        rest = ps[1:]
                    else:
                        o = base
                        rest = ps
                    for i, (a, b) in enumerate(rest):
                        ctx.call(o, 'update', (ctx.by if (i + j) & 1 else ctx.arr)(msg[a:b]))
                    ok = ctx.eq(digest_full(ctx, kind, name, o), want,
                                '%s: %d bytes split at %s%s: digest differs from the one-piece digest' % (
                                    kind, n, list(cs), ' (first piece in the constructor)' if ctor else ''), where,
                                content=True)
                    count += 1
                    if not ok and len(ctx.found) >= 3:
                        return
            ctx.sample.append('%d bytes, %d splittings' % (n, count))
        ctx.scenario(body, '%s %d bytes' % (kind, n))
    return run


def history(kind, name, bs, sizes, what, stub=False):
    """Many small pieces: no count of calls or bytes may wrap or saturate.

    With stub, the hash under the HMAC is replaced by its contract (which the
    obligations about the hash itself decide)."""
    def run(ctx):
        def body():
            n = sum(sizes)
            if stub:
                constant_hash(ctx)
            msg = tuple((i * 7 + i // 251) & 0xff for i in range(n))
            base = hmac(ctx, name, ctx.by(tuple(range(3, 35)))) if stub else make(ctx, kind, name)
            start = ctx.it.snapshot()
            ctx.call(base, 'update', ctx.arr(msg))
            want = ctx.frozen(digest_full(ctx, kind, name, base))
            ctx.it.restore(start)
            where = ctx.where(base, 'update')
            pos = 0
            for k in sizes:
                ctx.call(base, 'update', ctx.arr(msg[pos:pos + k]))
                pos += k
            ctx.eq(digest_full(ctx, kind, name, base), want, '%s: %s: digest differs from the one-piece digest' % (kind, what),
                   where, content=True)
            ctx.sample.append('%s: %s' % (kind, what))
        ctx.scenario(body, '%s %s' % (kind, what))
    return run


def obligations(ctx):
    out = []
    for kind, name, bs in KINDS:
        for what, sizes in (('300 updates of one byte', [1] * 300), ('300 empty updates and 5 bytes', [2] + [0] * 300 + [3]),
                            ('70 updates of a block', [bs] * 70), ('one update of 70 blocks and 3 bytes', [70 * bs, 3])):
            if 'block' in what and kind.startswith('hmac') and name.endswith('512'):
                continue
            out.append(('%s, %s' % (kind, what), history(kind, name, bs, sizes, what)))
    for kind, name, bs in KINDS:
        part = {'hmac': ('hmac', 'hash', 'utils'), 'hash': ('hash', 'utils')}.get(kind.split()[0].split('_')[0], ('cipher', 'utils'))
        under = kind.startswith('hmac')
        for v in thresholds(ctx, part, 2 * bs, 70000):
            if v in (127, 128, 240, 255) or v == 2 * bs:
                continue
            out.append(('%s, %d bytes and more' % (kind, v),
                        history(kind, name, bs, [v, 1, bs], '%d bytes and more' % v, under and v > 4096)))
            out.append(('%s, first a piece of more than %d bytes' % (kind, v),
                        history(kind, name, bs, [v + bs + 1, 1], 'first a piece of more than %d bytes' % v, under and v > 4096)))
            if v <= 4096 or under:
                out.append(('%s, %d updates and more' % (kind, v),
                            history(kind, name, bs, [1] * (v + 2), '%d updates and more' % v, under and v > 4096)))
    for kind, name, bs in KINDS:
        if bs == 64:
            ls = [0, 1, 63, 64, 65, 127, 128, 129, 193]
            if kind.startswith('hmac'):
                ls = [0, 1, 64, 65, 129]
            if ctx.tier == 'thorough':
                ls = sorted(set(ls + [2, 32, 62, 66, 100, 126, 130, 191, 192, 256, 321]))
        else:
            ls = [0, 1, bs - 1, bs, bs + 1, 2 * bs - 1, 2 * bs, 2 * bs + 1, 3 * bs, 4 * bs + 3]
            if ctx.tier == 'thorough':
                ls = sorted(set(ls + list(range(0, 5 * bs + 2))))
        for n in ls:
            out.append(('%s, %d bytes' % (kind, n), one(kind, name, bs, n)))
    return out

"""For each seed size, requests of enumerated sizes and sequences of requests on
one object are compared with the term of R 1323565.1.006-2017 (gsa/spec/keyed.py)
over the package's own hash, for an unknown seed.  The partition on which the
generator refuses must be exactly the zero seed.  The counter is then made an
unknown full-width value (every carry), and boundary constants (the limit, one
and two below it, carries between bytes): at the limit the documented error is
raised and nothing is produced afterwards, below it the next block uses exactly
the next counter.  Without a seed one draw of the seed size is made and used,
and reset() with and without a seed starts the sequence of that seed."""
from ..common import *
from .. import evalform as EV
from .c16 import fields, put

WARM = ('hash', 'spec:keyed')
ASSUMPTIONS = ['the hash function is decided by C16', 'request sizes and sequences are enumerated']
SIZES = (48, 40, 32)
ZERO = 'GOSTRandomError: the seed value is zero'
LIMIT = 'GOSTRandomError: exceeded the limit value of the counter'


def rnd(ctx, n, **kw):
    return ctx.fn('gostrandom', 'new', n, **kw)


def nonzero(ctx, seed):
    return lambda v: any(v.canon(c) if not isinstance(c, int) else c for c in seed)


def judge(ctx, fn, what, seed, site):
    """fn() on all partitions; refusal with ZERO exactly for the zero seed."""
    for kind, val, st in ctx.paths(fn):
        if kind == 'exc':
            nm, msg = ctx.error_of(val)
            if msg == ZERO:
                if EV.separate(nonzero(ctx, seed), st[1]) is not None:
                    ctx.fail('%s: a seed that is not zero is refused' % what, val.site)
                continue
            if ctx.feasible(st[1]):
                ctx.fail('%s: raises %s (%s)' % (what, nm, msg), val.site)
        elif kind == 'ok':
            v = EV.Valuation(0, 'random')
            t = nonzero(ctx, seed)
            # the zero seed must not get here
            if seed and not any(isinstance(c, int) and c for c in seed) and EV.facts_hold(Zero(seed), st[1]):
                ctx.fail('%s: a zero seed is accepted' % what, site)


class Zero(EV.Valuation):
    """A valuation that makes the given bytes zero."""

    def __init__(self, seed):
        forced = {}
        for c in seed:
            if isinstance(c, tuple):
                for f in c[1]:
                    for a in F.atoms_of(f):
                        forced[a] = 0
        super().__init__(7, 'random', forced)


def canon_bytes(ctx, el):
    return [ctx.it.canon(x) for x in el]


def one(size, reqs, kind):
    """A sequence of random() calls on one object."""
    def run(ctx):
        it = ctx.it
        mk = ctx.arr if kind == 'bytearray' else ctx.by
        h = hash_fn(ctx, 'streebog512')
        seed = ctx.el(ctx.sym('seed', size))
        for n in reqs:
            what = 'seed of %d bytes, %d bytes requested' % (size, n)

            def body():
                o = rnd(ctx, n, rand_k=mk(seed), size_s=size)
                where = ctx.where(o, 'random')
                state = ctx.by(seed + (0,) * (63 - size))
                for i in range(3):
                    state, want = ref(ctx, 'keyed', 'random', h, state, n)
                    ctx.eq(ctx.call(o, 'random'), want, '%s: sequence number %d differs from the standard' % (what, i + 1),
                           where, content=True)
                # the seed can be set again
                ctx.call(o, 'reset', mk(seed))
                state, want = ref(ctx, 'keyed', 'random', h, ctx.by(seed + (0,) * (63 - size)), n)
                ctx.eq(ctx.call(o, 'random'), want, '%s: after reset() with the seed the sequence differs' % what,
                       ctx.where(o, 'reset'), content=True)
            judge(ctx, body, what, canon_bytes(ctx, seed) if n else (), '')
        ctx.sample.append('seed of %d bytes: requests of %s bytes' % (size, list(reqs)))
    return run


def state_fields(ctx, o, seed, cnt):
    """How to set the seed and the counter in the object: a function, or None."""
    it = ctx.it
    fs = fields(it, o, seed + cnt)
    if fs:
        return [f[0] for f in fs], lambda s, c: [put(it, o, f, s + c) for f in fs]
    a, b = fields(it, o, seed), fields(it, o, cnt)
    b = [(k, 'big' if r == 'int' else r) for k, r in b if r not in ('rev-bytes', 'rev-bytearray')]
    if a and b:
        return [f[0] for f in b], lambda s, c: [put(it, o, f, s) for f in a] + [put(it, o, f, c) for f in b]
    return None


def prepared(ctx, size, n, seed, h):
    """An object that has produced 64 bytes, and the setter of its state."""
    it = ctx.it
    o = rnd(ctx, n, rand_k=ctx.arr(seed), size_s=size)
    snap = {k: it.canon(v) for k, v in it.payload(o)[1].items() if not isinstance(v, Ref) or it.kind(v) != 'obj'}
    w = 63 - size
    ctx.call(o, 'random')
    after = {k: it.canon(v) for k, v in it.payload(o)[1].items() if not isinstance(v, Ref) or it.kind(v) != 'obj'}
    r = state_fields(ctx, o, seed, (0,) * (w - 1) + (1,))
    if r is None or {k for k in after if snap.get(k) != after[k]} - set(r[0]):
        ctx.note('the register is not held in attributes of its own; only the other obligations apply')
        return o, None
    return o, r[1]


def generic(size):
    def run(ctx):
        it = ctx.it
        h = hash_fn(ctx, 'streebog512')
        seed = ctx.el(ctx.sym('seed', size))
        w = 63 - size

        def body():
            o, setter = prepared(ctx, size, 64, seed, h)
            if setter is None:
                return
            c = ctx.el(ctx.sym('count', w))
            setter(seed, c)
            got = ctx.call(o, 'random')
            _, want = ref(ctx, 'keyed', 'random', h, ctx.by(seed + c), 64)
            ctx.eq(got, want, 'seed of %d bytes: from an arbitrary counter the next block is not H(seed || counter + 1)' % size,
                   ctx.where(o, 'random'), content=True)
        for kind, val, st in ctx.paths(body):
            if kind == 'exc' and ctx.error_of(val)[1] not in (ZERO, LIMIT) and ctx.feasible(st[1]):
                ctx.fail('from an arbitrary counter: raises %s (%s)' % ctx.error_of(val), val.site)
    return run


def boundary(size):
    def run(ctx):
        it = ctx.it
        h = hash_fn(ctx, 'streebog512')
        seed = (1,) + ctx.el(ctx.sym('seed', size - 1))
        w = 63 - size
        top = 2 ** (8 * w) - 1
        for c in sorted({top, top - 1, top - 2, 0, 1, 254, 255, 256, 65535, 2 ** (8 * w - 8) - 1, top - 255}):
            for n in (64, 5):
                def body():
                    o, setter = prepared(ctx, size, n, seed, h)
                    if setter is None:
                        return
                    setter(seed, tuple(c.to_bytes(w, 'big')))
                    where = ctx.where(o, 'random')
                    if c == top:
                        try:
                            ctx.call(o, 'random')
                        except TargetExc as e:
                            nm, msg = ctx.error_of(e)
                            if (nm, msg) != ('GOSTRandomError', LIMIT):
                                ctx.fail('seed of %d bytes: at the limit of the counter %s (%s) is raised' % (size, nm, msg),
                                         e.site)
                        else:
                            ctx.fail('seed of %d bytes: a block is produced at the limit of the counter' % size, where)
                            return
                        try:
                            ctx.call(o, 'random')
                        except TargetExc as e:
                            if ctx.error_of(e)[0] != 'GOSTRandomError':
                                ctx.fail('seed of %d bytes: after the limit %s (%s) is raised' % ((size,) + ctx.error_of(e)),
                                         e.site)
                        else:
                            ctx.fail('seed of %d bytes: generation continues after the limit of the counter' % size, where)
                        ctx.items += 2
                        return
                    want = ctx.el(it.call(h, [ctx.by(seed + tuple((c + 1).to_bytes(w, 'big')))], {}))[64 - n:]
                    ctx.eq(ctx.call(o, 'random'), ctx.by(want), 'seed of %d bytes, counter %s: the next %d bytes are not '
                           'H(seed || counter + 1)' % (size, hex(c), n), where, content=True)
                ctx.scenario(body, 'seed of %d bytes, counter %s' % (size, hex(c)))
    return run


def fresh(size):
    def run(ctx):
        it = ctx.it
        from .. import core

        def body():
            h = hash_fn(ctx, 'streebog512')
            base = len(it.rand_calls)
            o = rnd(ctx, 64, **({} if size == 48 else {'size_s': size}))
            d = it.rand_calls[base:]
            if [x[1] for x in d] != [size]:
                ctx.fail('without a seed the constructor draws %s bytes' % [x[1] for x in d], ctx.where(o, '__init__'))
                return
            el = B.sym_bytes(d[0][0], size)
            state, want = ref(ctx, 'keyed', 'random', h, ctx.by(el + (0,) * (63 - size)), 64)
            ctx.eq(ctx.call(o, 'random'), want, 'without a seed: the sequence is not that of the bytes drawn',
                   ctx.where(o, '__init__'), content=True)
            base = len(it.rand_calls)
            ctx.call(o, 'reset')
            d = it.rand_calls[base:]
            if [x[1] for x in d] != [size]:
                ctx.fail('reset() without a seed draws %s bytes' % [x[1] for x in d], ctx.where(o, 'reset'))
                return
            el = B.sym_bytes(d[0][0], size)
            state, want = ref(ctx, 'keyed', 'random', h, ctx.by(el + (0,) * (63 - size)), 64)
            ctx.eq(ctx.call(o, 'random'), want, 'after reset() without a seed: the sequence is not that of the bytes drawn',
                   ctx.where(o, 'reset'), content=True)
        ctx.scenario(body, 'without a seed', allow=(ZERO,))
    return run


def zero(size):
    def run(ctx):
        def body():
            for n in (1, 64, 70):
                o = rnd(ctx, n, rand_k=ctx.arr((0,) * size), size_s=size)
                for i in range(2):
                    try:
                        ctx.call(o, 'random')
                    except TargetExc as e:
                        if ctx.error_of(e) != ('GOSTRandomError', ZERO):
                            ctx.fail('zero seed: raises %s (%s)' % ctx.error_of(e), e.site)
                    else:
                        ctx.fail('a zero seed of %d bytes is used' % size, ctx.where(o, 'random'))
                    ctx.items += 1
            for i in (0, 1, size // 2, size - 1):
                o = rnd(ctx, 1, rand_k=ctx.arr((0,) * i + (1,) + (0,) * (size - 1 - i)), size_s=size)
                ctx.call(o, 'random')
        ctx.scenario(body, 'zero seed')
    return run


def long(size, n):
    def run(ctx):
        ctx.it.summ = None

        def body():
            constant_hash(ctx)
            h = hash_fn(ctx, 'streebog512')
            seed = bytes(range(1, size + 1))
            state, want = ref(ctx, 'keyed', 'random', h, ctx.by(seed + bytes(63 - size)), n)
            o = rnd(ctx, n, rand_k=ctx.by(seed), size_s=size)
            ctx.eq(ctx.call(o, 'random'), want, 'seed of %d bytes: %d bytes in one request differ from the standard'
                   % (size, n), ctx.where(o, 'random'), content=True)
        ctx.scenario(body, 'long request')
    return run


def obligations(ctx):
    out = []
    reqs = (1, 40, 63, 64, 65, 128, 200) if ctx.tier == 'quick' else tuple(range(1, 130, 3)) + (128, 192, 320)
    for i, s in enumerate(SIZES):
        out.append(('seed of %d bytes' % s, one(s, reqs, ('bytearray', 'bytes')[i & 1])))
        out.append(('seed of %d bytes, arbitrary counter' % s, generic(s)))
        out.append(('seed of %d bytes, boundary counters' % s, boundary(s)))
        out.append(('seed of %d bytes, zero' % s, zero(s)))
        out.append(('no seed, %d bytes' % s, fresh(s)))
        out.append(('seed of %d bytes, 300 blocks over constants' % s, long(s, 300 * 64 + 7)))
        for v in thresholds(ctx, ('gostrandom',), 70, 4096):
            if v > 300:
                out.append(('seed of %d bytes, %d blocks and more over constants' % (s, v), long(s, v * 64 + 70)))
            out.append(('seed of %d bytes, %d bytes over constants' % (s, v), long(s, v)))
            out.append(('seed of %d bytes, %d bytes and one over constants' % (s, v), long(s, v + 1)))
    return out

"""Aliasing.  Arguments, results and everything reachable from an object, a module,
a class or a default argument are abstract heap objects.  For every kind of
object, state and operation: no mutable container of a result is one of the
caller's arguments; where a mutable container is shared between the object (or
the package) and an argument or a result, its content is replaced by an
unrelated one and all enumerated continuations, on this object and on a new one,
must give the terms they give without that.  Only a sharing that changes a later
result is reported."""
from .callers import *
from .c03 import observe, cmp
from . import c25
from .. import evalform as EV

WARM = ('magma', 'kuznechik', 'hash')
ASSUMPTIONS = ['operation sequences and lengths are enumerated; contents are arbitrary',
               'sharing is judged on bytearrays, lists, dictionaries and sets']


class Watch:
    def __init__(self, ctx, b, fresh):
        self.ctx, self.b, self.fresh = ctx, b, fresh

    def judge(self, o, conts, held, what, where):
        """held: {address: description} of what the caller holds."""
        ctx, it = self.ctx, self.ctx.it
        ctx.items += 1
        inner = dict(module_reach(ctx))
        if o is not None:
            it.reachable(o, inner)
        # public sub-objects handed out by attributes stay reachable through the object on purpose
        shared = [a for a in held if a in inner and it.heap[a][0] in MUTABLE]
        if not shared:
            return
        start, m = it.snapshot(), self.b.mark()

        def results():
            out = []
            for c in conts:
                it.restore(start2)
                out.append(c(self.b))
                self.b.back(m)
            return out
        start2 = start
        want = results()
        for a in shared[:4]:
            it.restore(start)
            t, it.tag = it.tag, 'caller'
            scramble(ctx, a, a)
            it.tag = t
            start2 = it.snapshot()
            got = results()
            for w, g in zip(want, got):
                self.cmp(w, g, '%s: changing %s afterwards' % (what, held[a]), where)
        it.restore(start)

    def cmp(self, want, got, what, where):
        ctx = self.ctx
        if [x[0] for x in want] != [x[0] for x in got]:
            ctx.fail('%s changes later results (%s instead of %s)' % (what, [x[0] for x in got][-1:], [x[0] for x in want][-1:]),
                     where, soft=True)
            return
        cmp(ctx, want, got, what, where)


def view(ctx, s, cont, o):
    def f(b):
        try:
            return observe(ctx, s, o, cont, b)
        except TargetExc as e:
            return [('error', ('s', ctx.text(ctx.error_of(e)[1])))]
    return f


def view_new(ctx, s, cont):
    def f(b):
        try:
            return observe(ctx, s, s.make(ctx, b), cont, b)
        except TargetExc as e:
            return [('error', ('s', ctx.text(ctx.error_of(e)[1])))]
    return f


def results_held(ctx, r, desc, args, what, where):
    """Mutable containers of a result; one that is an argument is a violation."""
    out = {}
    for a in mutables(ctx, r):
        if a in args:
            ctx.fail('%s returns the caller\'s own %s' % (what, args[a]), where)
        out[a] = desc
    return out


def one(s, prefix, fin):
    def run(ctx):
        def body():
            it = ctx.it
            b = Args(ctx)
            o = s.make(ctx, b)
            ctx.roots = [o]
            w = Watch(ctx, b, None)
            conts = [view(ctx, s, c, o) for c in s.cont] + [view_new(ctx, s, s.cont[0])]
            if 'clear' in s.ops and fin:
                pass
            held = {}
            for lab in prefix:
                r = s.run(ctx, o, lab, b)
                held.update(results_held(ctx, r, 'the result of %s' % lab, b.addrs(), '%s, %s' % (s.name, lab), ''))
            start, m = it.snapshot(), b.mark()
            st = '%s after %s' % (s.name, ','.join(prefix) or 'creation')
            for lab in list(s.ops) + ['attributes']:
                it.restore(start)
                b.back(m)
                where = ctx.where(o, lab.split('(')[0].rstrip('2'))
                h = dict(held)
                if lab == 'attributes':
                    for k, v in read_attrs(ctx, o):
                        h.update(results_held(ctx, v, 'the value of %s' % k, b.addrs(), st + ': ' + k, ctx.where(o, k.split('.')[0])))
                        if k.split('.')[0] and v is not None:
                            where = where or ctx.where(o, k)
                else:
                    r = s.run(ctx, o, lab, b)
                    h.update(results_held(ctx, r, 'the result of %s' % lab, b.addrs(), '%s: %s' % (st, lab), where))
                for a, n in b.addrs().items():
                    h.setdefault(a, 'the argument %s' % n)
                w.judge(o, conts, h, '%s: %s' % (st, lab), where)
            ctx.sample.append('%s: %d operations' % (st, len(s.ops) + 1))
        ctx.scenario(body, s.name, allow=s.allow)
    return run


def constructor(name, make, ops):
    """Constructor arguments beyond those of the subjects; ops: method calls observed afterwards."""
    def run(ctx):
        def body():
            it = ctx.it
            b = Args(ctx)
            o = make(ctx, b)
            ctx.roots = [o]
            w = Watch(ctx, b, None)

            def seq(b2):
                out = []
                for m, args in ops:
                    try:
                        r = op(ctx, o, m, *[b2(*a) if isinstance(a, tuple) else a for a in args])
                        out.append((m, it.canon(r)))
                    except TargetExc as e:
                        out.append((m, ('s', ctx.text(ctx.error_of(e)[1]))))
                for k, v in read_attrs(ctx, o):
                    if not (isinstance(v, Ref) and it.kind(v) == 'obj'):
                        out.append((k, it.canon(v)))
                return out
            h = {}
            for k, v in read_attrs(ctx, o):
                h.update(results_held(ctx, v, 'the value of %s' % k, b.addrs(), '%s: %s' % (name, k), ctx.where(o, k)))
            for a, n in b.addrs().items():
                h.setdefault(a, 'the argument %s' % n)
            w.judge(o, [seq], h, name + ': creation', ctx.where(o, '__init__'))
            for m, args in ops:
                r = op(ctx, o, m, *[b(*a) if isinstance(a, tuple) else a for a in args])
                h.update(results_held(ctx, r, 'the result of %s' % m, b.addrs(), '%s: %s' % (name, m), ctx.where(o, m)))
                for k, v in read_attrs(ctx, o):
                    h.update(results_held(ctx, v, 'the value of %s' % k, b.addrs(), '%s: %s' % (name, k), ctx.where(o, k)))
                for a, n in b.addrs().items():
                    h.setdefault(a, 'the argument %s' % n)
                w.judge(o, [seq], h, '%s: %s' % (name, m), ctx.where(o, m))
            ctx.sample.append(name)
        ctx.scenario(body, name, allow=('seed value is zero',))
    return run


def specials(ctx):
    out = []
    for a in ALGS:
        bs = BS[a]
        for n in (0, 3, bs, 2 * bs + 1):
            out.append(('MAC %s with data of %d bytes' % (a, n),
                        lambda c, b, a=a, n=n: new(c, a, 'MAC', b('key', 32), data=b('data', n)),
                        [('digest', (BS[a],)), ('update', (('x', bs),)), ('digest', (BS[a],))]))
        for m in ('CBC', 'CFB', 'OFB'):
            for nb in (1, 2, 3):
                out.append(('%s %s, register of %d blocks' % (m, a, nb),
                            lambda c, b, a=a, m=m, nb=nb: stream(c, a, m, nb, 1, b('key', 32), b('iv', BS[a] * nb)),
                            [('encrypt', (('x', bs),)), ('decrypt', (('y', 2 * bs),)), ('encrypt', (('z', 3),))]))
        out.append(('CTR %s' % a, lambda c, b, a=a: stream(c, a, 'CTR', 1, 1, b('key', 32), b('iv', BS[a] // 2)),
                    [('encrypt', (('x', bs),)), ('decrypt', (('y', 2 * bs),)), ('encrypt', (('z', 3),)), ('encrypt', (('z', 0),))]))
        for m in ('CBC', 'CFB', 'OFB', 'CTR'):
            out.append(('%s %s, default initialization vector' % (m, a),
                        lambda c, b, a=a, m=m: new(c, a, m, b('key', 32)),
                        [('encrypt', (('x', bs),)), ('decrypt', (('y', 2 * bs),))]))
    for h in HASHES:
        for n in (0, 5, 63, 64, 65, 128):
            out.append(('%s with data of %d bytes' % (h, n), lambda c, b, h=h, n=n: hash_(c, h, data=b('data', n)),
                        [('digest', ()), ('update', (('x', 64),)), ('digest', ())]))
    for h in HMACS:
        for kl, n in ((32, 64), (64, 5), (63, 0), (64, 64), (1, 128)):
            out.append(('%s with a key of %d and data of %d bytes' % (h, kl, n),
                        lambda c, b, h=h, n=n, kl=kl: hmac(c, h, b('key', kl), data=b('data', n)),
                        [('digest', ()), ('update', (('x', 64),)), ('digest', ()), ('reset', ()), ('digest', ())]))
    for pl, sl in ((12, 8), (64, 32), (1, 0), (63, 64)):
        out.append(('pbkdf with a password of %d and a salt of %d bytes' % (pl, sl),
                    lambda c, b, pl=pl, sl=sl: c.fn('gostpbkdf', 'new', b('password', pl), salt=b('salt', sl), counter=2),
                    [('derive', (32,)), ('derive', (65,)), ('hexderive', (8,))]))
    out.append(('pbkdf without a salt', lambda c, b: c.fn('gostpbkdf', 'new', b('password', 9), counter=1),
                [('derive', (32,)), ('derive', (65,))]))
    for size in (32, 40, 48):
        for n in (64, 70):
            out.append(('random, %d bytes, seed of %d' % (n, size),
                        lambda c, b, n=n, size=size: c.fn('gostrandom', 'new', n, rand_k=b('seed', size), size_s=size),
                        [('random', ()), ('reset', (('seed2', size),)), ('random', ()), ('random', ())]))
        out.append(('random, own seed of %d bytes' % size, lambda c, b, size=size: c.fn('gostrandom', 'new', 10, size_s=size),
                    [('random', ()), ('reset', ()), ('random', ())]))
    return out


def signature(name):
    """Dictionary, keys, digests, signatures: sharing with the object, its tables or the arguments."""
    def run(ctx):
        it = ctx.it
        ctx.it.LOOP_BOUND = 1

        def body():
            cur = SG.table(ctx, name)
            c = SG.canonical(ctx, cur)
            size = SG.size_of(ctx, cur)
            from .. import group as G
            for form, d in (('shipped', dict(it.payload(cur))), ('canonical', c)):
                b = Args(ctx)
                o = ctx.fn('gostsignature', 'new', SG.mode_of(ctx, size), b.dict('curve', d))
                where = ctx.where(o, '__init__')
                w = Watch(ctx, b, None)
                cu = G.Curve(c['p'], c['a'])
                Q = cu.mul(2, (c['x'], c['y']))
                enc = lambda n: n.to_bytes(size, 'big')

                def seq(b2):
                    out = []
                    for m, args, kw in (('public_key_generate', [b2.const('private_key', enc(2))], {}),
                                        ('sign', [b2.const('private_key', enc(2)), b2.const('digest', enc(3))],
                                         {'rand_k': b2.const('rand_k', enc(2))}),
                                        ('verify', [b2.const('public_key', enc(Q[0]) + enc(Q[1])), b2.const('digest', enc(3)),
                                                    b2.const('signature', bytes(2 * size))], {})):
                        try:
                            out.append((m, it.canon(ctx.call(o, m, *args, **kw))))
                        except TargetExc as e:
                            out.append((m, ('s', ctx.text(ctx.error_of(e)[1]))))
                    for k, v in read_attrs(ctx, o):
                        if not (isinstance(v, Ref) and it.kind(v) == 'obj'):
                            out.append((k, it.canon(v)))
                    return out
                h = {a: 'the argument %s' % n for a, n in b.addrs().items()}
                w.judge(o, [seq], h, '%s (%s)' % (name, form), where)
                for m, args, kw in (('public_key_generate', [b.const('private_key', enc(2))], {}),
                                    ('sign', [b.const('private_key', enc(2)), b.const('digest', enc(3))],
                                     {'rand_k': b.const('rand_k', enc(2))}),
                                    ('sign', [b.const('private_key', enc(1)), b.const('digest', bytes(size))],
                                     {'rand_k': b.const('rand_k', enc(1))})):
                    try:
                        r = ctx.call(o, m, *args, **kw)
                    except TargetExc as e:
                        continue
                    where = ctx.where(o, m)
                    h = results_held(ctx, r, 'the result of %s' % m, b.addrs(), '%s: %s' % (name, m), where)
                    for k, v in read_attrs(ctx, o):
                        h.update(results_held(ctx, v, 'the value of %s' % k, b.addrs(), '%s: %s' % (name, k), ctx.where(o, k)))
                    for a, n in b.addrs().items():
                        h.setdefault(a, 'the argument %s' % n)
                    w.judge(o, [seq], h, '%s: %s' % (name, m), where)
            ctx.sample.append(name)
        ctx.scenario(body, name)
    return run


def unknown(name):
    """Unknown arguments over an abstract base point: no result or argument is kept."""
    def run(ctx):
        it = ctx.it
        it.LOOP_BOUND = 1
        for what in ('sign', 'public_key_generate'):
            def body():
                o, g, c, size = c25.setup(ctx, name)
                b = Args(ctx)
                args = [b('private_key', size)]
                kw = {}
                if what == 'sign':
                    args.append(b('digest', size))
                    kw['rand_k'] = b('rand_k', size)
                try:
                    r = ctx.call(o, what, *args, **kw)
                except TargetExc:
                    r = None
                where = ctx.where(o, what)
                results_held(ctx, r, 'the result', b.addrs(), '%s: %s' % (name, what), where)
                ctx.items += 1
                base = it.canon(o)
                inner = module_reach(ctx)
                it.reachable(o, inner)
                for a in list(b.addrs()) + mutables(ctx, r):
                    if a in inner:
                        start = it.snapshot()
                        scramble(ctx, a, a)
                        if it.canon(o) != base:
                            ctx.note('%s: %s keeps a buffer of the caller' % (name, what))
                        it.restore(start)
            for kind, val, st in ctx.paths(body):
                pass
        ctx.sample.append(name)
    return run


def oid(ctx):
    def body():
        it = ctx.it
        for text in ('1.2.643.7.1.1.2.2', '2.999.3', '1.2.643.7.1.2.1.1.1'):
            o = ctx.fn('gostoid', 'ObjectIdentifier', text)
            b = Args(ctx)

            def seq(b2):
                o2 = ctx.fn('gostoid', 'ObjectIdentifier', text)
                return [(k, it.canon(v)) for x in (o, o2) for k, v in read_attrs(ctx, x)]
            for k, v in read_attrs(ctx, o):
                w = Watch(ctx, b, None)
                w.judge(o, [seq], results_held(ctx, v, 'the value of %s' % k, {}, k, ctx.where(o, k)), 'ObjectIdentifier.%s' % k,
                        ctx.where(o, k))
    ctx.scenario(body, 'oid')


def obligations(ctx):
    out = []
    for s in subjects(ctx.tier):
        if s.name == 'oid':
            continue
        for p in s.states:
            if s.name == 'pbkdf' and p and ctx.tier == 'quick':
                continue
            out.append(('%s after %s' % (s.name, ','.join(p) or 'creation'), one(s, p, False)))
    for n, mk, ops in specials(ctx):
        out.append((n, constructor(n, mk, ops)))
    for n in SG.tables(ctx):
        out.append(('%s, particular arguments' % n, signature(n)))
        out.append(('%s, unknown arguments' % n, unknown(n)))
    out.append(('object identifiers', oid))
    return out

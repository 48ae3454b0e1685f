"""For every hash, HMAC and random-sequence object and every enumerated history
(updates of several lengths, digests, copies, failed calls, earlier resets, the
refusal of the generator), the object after reset() is compared with a new one:
it is the same value (all attributes, deeply), or else the results of all
enumerated continuations, including a second reset, are the same terms."""
from ..common import *
from .c03 import observe, cmp

WARM = ('hash',)
ASSUMPTIONS = ['histories and continuations are enumerated sequences of operations with arbitrary contents']
STATES = {
    'hash': [[], ['update(0)'], ['update(1)'], ['update(5)'], ['update(63)', 'update(1)'], ['update(64)'], ['update(70)'],
             ['update(5)', 'digest'], ['update(70)', 'digest', 'update(5)'], ['update(70)', 'reset', 'update(5)'],
             ['update(64)', 'update(64)', 'update(64)'], ['copy', 'update(70)', 'copy'], ['bad', 'update(5)', 'bad'], ['digest'],
             ['update(64)', 'hexdigest'], ['update(200)'], ['update(200)', 'digest', 'update(200)', 'update(64)']],
    'hmac': [[], ['update(0)'], ['update(5)'], ['update(64)'], ['update(70)'], ['update(5)', 'digest'],
             ['update(70)', 'digest', 'update(5)'], ['update(70)', 'reset', 'update(5)'], ['bad', 'update(5)', 'bad'],
             ['copy', 'update(5)', 'copy'], ['digest'], ['hexdigest', 'update(64)'], ['update(200)'], ['update(200)', 'digest', 'reset', 'update(200)']],
}


def bad(ctx, o):
    try:
        ctx.call(o, 'update', 'text')
    except TargetExc:
        pass


def one(s, prefix):
    def run(ctx):
        it = ctx.it
        b = ba(ctx)

        def body():
            st = '%s: reset() after %s' % (s.name, ','.join(prefix) or 'creation')
            fresh = s.make(ctx, b)
            o = s.make(ctx, b)
            ctx.roots = [o, fresh]
            for lab in prefix:
                if lab == 'bad':
                    bad(ctx, o)
                else:
                    s.run(ctx, o, lab, b)
            where = ctx.where(o, 'reset')
            for twice in (1, 2):
                ctx.call(o, 'reset')
                ctx.items += 1
                if it.canon(o) != it.canon(fresh):
                    start = it.snapshot()
                    for cont in s.cont:
                        it.restore(start)
                        w = observe(ctx, s, fresh, cont, b)
                        it.restore(start)
                        cmp(ctx, w, observe(ctx, s, o, cont, b), st, where)
                    it.restore(start)
            ctx.sample.append(st)
        ctx.scenario(body, s.name)
    return run


def rand(size, hist, n):
    def run(ctx):
        it = ctx.it
        seed = ctx.el(ctx.sym('seed', size))
        other = ctx.el(ctx.sym('other', size))

        def body():
            mk = lambda x: ctx.arr(x)
            fresh = ctx.fn('gostrandom', 'new', n, rand_k=mk(seed), size_s=size)
            o = ctx.fn('gostrandom', 'new', n, rand_k=mk(seed if 'same' in hist else other), size_s=size)
            for h in hist:
                if h == 'random':
                    try:
                        ctx.call(o, 'random')
                    except TargetExc as e:
                        if 'zero' not in ctx.text(ctx.error_of(e)[1]):
                            raise
                elif h == 'reset':
                    ctx.call(o, 'reset', mk(other))
                elif h == 'fresh':
                    ctx.call(o, 'reset')
                elif h == 'clear':
                    ctx.call(o, 'clear')
                elif h == 'bad':
                    try:
                        ctx.call(o, 'reset', mk(other[:-1]))
                    except TargetExc:
                        pass
                elif h == 'zero':
                    ctx.call(o, 'reset', mk((0,) * size))
            ctx.call(o, 'reset', mk(seed))
            ctx.items += 1
            where = ctx.where(o, 'reset')
            if it.canon(o) == it.canon(fresh):
                return
            st = it.snapshot()

            def seq(x):
                out = []
                for i in range(3):
                    try:
                        out.append(('random', it.canon(ctx.call(x, 'random'))))
                    except TargetExc as e:
                        out.append(('random', ctx.error_of(e)))
                return out
            w = seq(fresh)
            it.restore(st)
            cmp(ctx, w, seq(o), 'random object with seed of %d bytes: reset() with the seed after %s' % (
                size, ','.join(hist) or 'creation'), where)
        ctx.scenario(body, 'random object')
    return run


def obligations(ctx):
    out = []
    for s in subjects(ctx.tier):
        k = s.name.split()[0]
        if k in STATES:
            for p in STATES[k]:
                out.append(('%s after %s' % (s.name, ','.join(p) or 'creation'), one(s, p)))
    for size in (48, 40, 32):
        for hist in ([], ['same'], ['random'], ['same', 'random', 'random'], ['random', 'reset', 'random'], ['fresh', 'random'],
                     ['random', 'clear'], ['bad', 'random'], ['zero', 'random']):
            for n in (64, 70):
                if n == 64 and size != 48 and ctx.tier == 'quick':
                    continue
                out.append(('random, seed of %d bytes, %d bytes, after %s' % (size, n, ','.join(hist) or 'creation'),
                            rand(size, hist, n)))
    return out

"""For every hash and HMAC variant and every enumerated state, the copy is
compared with the original: the results of all enumerated continuations are the
same terms.  Then every operation (update of several lengths, digest, reset,
clear, copy, finalisation) is performed on one of the two objects, and the other
one must be the same value as before (all attributes, deeply), or else give the
same terms for all continuations.  The same for a copy of a copy and for both
objects used alternately."""
from ..common import *
from .c03 import observe, cmp

WARM = ('hash',)
ASSUMPTIONS = ['states and continuations are enumerated sequences of operations with arbitrary contents']
STATES = {
    'hash': [[], ['update(0)'], ['update(5)'], ['update(63)', 'update(1)'], ['update(64)'], ['update(70)'],
             ['update(5)', 'digest'], ['update(70)', 'reset'], ['update(70)', 'reset', 'update(5)'],
             ['update(64)', 'update(64)'], ['update(200)']],
    'hmac': [[], ['update(0)'], ['update(5)'], ['update(64)'], ['update(70)'], ['update(5)', 'digest'],
             ['update(70)', 'reset'], ['reset', 'update(5)']],
}


def one(s, prefix, ops):
    def run(ctx):
        it = ctx.it
        b = ba(ctx)

        def body():
            o = s.make(ctx, b)
            ctx.roots = [o]
            for lab in prefix:
                s.run(ctx, o, lab, b)
            st = 'after %s' % (','.join(prefix) or 'creation')
            c = ctx.call(o, 'copy')
            where = ctx.where(o, 'copy')
            if it.payload(c)[0] is not it.payload(o)[0]:
                ctx.fail('%s %s: copy() gives an object of class %s' % (s.name, st, it.type_name(c)), where)
                return
            if c.addr == o.addr:
                ctx.fail('%s %s: copy() gives the object itself' % (s.name, st), where)
                return
            ctx.roots = [o, c]
            start = it.snapshot()
            ctx.items += 1
            refs = None

            def want():
                nonlocal refs
                if refs is None:
                    refs = []
                    for cont in s.cont:
                        it.restore(start)
                        refs.append(observe(ctx, s, o, cont, b))
                return refs
            base = {0: it.canon(o), 1: it.canon(c)}
            if base[0] != base[1]:
                for cont, w in zip(s.cont, want()):
                    it.restore(start)
                    cmp(ctx, w, observe(ctx, s, c, cont, b), '%s %s: copying' % (s.name, st), where)
            # attributes an observation cannot see may differ, those it sees were compared
            pair = (o, c)
            for side in (0, 1):
                for lab in ops + ['finalisation']:
                    if lab != 'finalisation' and lab not in s.ops:
                        continue
                    it.restore(start)
                    w = len(it.writes), len(it.class_writes)
                    if lab == 'finalisation':
                        finalise(ctx, pair[side])
                    else:
                        s.run(ctx, pair[side], lab, b)
                    ctx.items += 1
                    other = pair[1 - side]
                    what = '%s %s: %s of the %s' % (s.name, st, lab, ('original', 'copy')[side])
                    if it.canon(other) == base[1 - side] and (len(it.writes), len(it.class_writes)) == w:
                        continue
                    mid = it.snapshot()
                    for cont, wnt in zip(s.cont, want()):
                        it.restore(mid)
                        cmp(ctx, wnt, observe(ctx, s, other, cont, b),
                            what + ' (seen on the %s)' % ('copy', 'original')[side], where)
            # both alternately, and a copy of the copy
            want()
            it.restore(start)
            cc = ctx.call(c, 'copy')
            ctx.roots = [o, c, cc]
            it1 = it.snapshot()
            for cont, w in zip(s.cont, want()):
                it.restore(it1)
                got = {0: [], 1: [], 2: []}
                for lab in cont:
                    for i, x in enumerate((o, c, cc)):
                        got[i].append((lab, it.canon(s.run(ctx, x, lab, b))))
                for i in got:
                    cmp(ctx, w[:len(cont)], got[i], '%s %s: using %s beside its copies' % (
                        s.name, st, ('the original', 'the copy', 'a copy of the copy')[i]), where)
            ctx.sample.append('%s %s: %d operations on either side' % (s.name, st, len(ops) + 1))
        ctx.scenario(body, s.name)
    return run


def obligations(ctx):
    out = []
    ops = ['update(5)', 'update(70)', 'reset', 'clear', 'digest', 'copy']
    if ctx.tier != 'quick':
        ops = ops + ['update(0)', 'update(1)', 'update(63)', 'update(64)', 'hexdigest']
    for s in subjects(ctx.tier):
        k = s.name.split()[0]
        if k in STATES:
            for p in STATES[k]:
                if k == 'hmac' and ctx.tier == 'quick' and s.name.endswith('512') and len(p) > 1:
                    continue
                out.append(('%s after %s' % (s.name, ','.join(p) or 'creation'), one(s, p, ops)))
    return out

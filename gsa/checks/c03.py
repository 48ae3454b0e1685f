"""For every kind of object, every enumerated state and every read-only
operation (digest, hexdigest, MAC, derived key, ECB and raw block encryption and
decryption, copy, every public attribute), the results of the enumerated
continuations after performing the operation (twice, and once after another
read-only operation) are shown to be the same terms as without it, and the two
results of the repeated operation to be the same.  Finalisers of temporaries the
operation leaves behind are analysed as part of it.  Signature operations are
analysed over all their partitions: the content of the object afterwards is the
content before."""
from ..common import *

WARM = ('magma', 'kuznechik', 'hash')
ASSUMPTIONS = ['state prefixes and continuations are enumerated sequences of operations with arbitrary contents',
               'finalisers run as soon as an object is unreachable']


def observe(ctx, s, o, cont, b):
    out = []
    for lab in cont:
        r = s.run(ctx, o, lab, b)
        out.append((lab, ctx.it.canon(r)))
    for k, v in read_attrs(ctx, o):
        if not (isinstance(v, Ref) and ctx.it.kind(v) == 'obj'):
            out.append((k, ctx.it.canon(v)))
    return out


def cmp(ctx, want, got, what, where):
    from .. import evalform as EV
    from ..core import _content
    for (l1, a), (l2, b) in zip(want, got):
        ctx.items += 1
        r, why = EV.compare(_content(a), _content(b), ctx.it.facts)
        if r == 'different':
            ctx.fail('%s changes the later result of %s (%s)' % (what, l1, why), where, soft=True)
            return
        if r == 'unknown':
            ctx.note('not decided: %s before %s: %s' % (what, l1, why))


def one(s, prefix):
    def run(ctx):
        def body():
            b = ba(ctx)
            it = ctx.it
            o = s.make(ctx, b)
            ctx.roots = [o]
            for lab in prefix:
                s.run(ctx, o, lab, b)
            start = it.snapshot()
            base = it.canon(o)
            refs = None
            ros = [l for l, (f, ro) in s.ops.items() if ro]

            def cont_results():
                out = []
                for c in s.cont:
                    it.restore(start)
                    out.append(observe(ctx, s, o, c, b))
                return out

            def after(what, where, doit):
                nonlocal refs
                it.restore(start)
                w = len(it.writes), len(it.class_writes)
                doit()
                if it.canon(o) == base and w == (len(it.writes), len(it.class_writes)):
                    ctx.items += 1
                    return      # the object is the same value
                mid = it.snapshot()
                if refs is None:
                    refs = cont_results()
                for c, want in zip(s.cont, refs):
                    it.restore(mid)
                    cmp(ctx, want, observe(ctx, s, o, c, b), what, where)
            for lab in ros:
                def doit():
                    r1 = ctx.it.canon(s.run(ctx, o, lab, b))
                    r2 = ctx.it.canon(s.run(ctx, o, lab, b))
                    if lab != 'copy':
                        cmp(ctx, [(lab, r1)], [(lab, r2)], '%s: the first %s' % (s.name, lab), '')
                after('%s after %s: %s' % (s.name, prefix or 'creation', lab), ctx.where(o, lab.split('(')[0]), doit)
            def attrs():
                a1 = [(k, it.canon(v)) for k, v in read_attrs(ctx, o)]
                a2 = [(k, it.canon(v)) for k, v in read_attrs(ctx, o)]
                cmp(ctx, a1, a2, '%s: reading attributes' % s.name, '')
            after('%s after %s: reading attributes' % (s.name, prefix or 'creation'), '', attrs)
            ctx.sample.append('%s after %s: %d read-only operations' % (s.name, prefix, len(ros) + 1))
        ctx.scenario(body, s.name, allow=s.allow)
    return run


def sig(name, how):
    """Signature operations with unknown arguments on abstract points: the object is the same value afterwards."""
    def run(ctx):
        from .c25 import setup, judge
        ctx.it.LOOP_BOUND = 1
        changed = set()

        def body():
            it = ctx.it
            o, g, c, size = setup(ctx, name)
            before = it.canon(o)
            w = len(it.writes), len(it.class_writes)
            sy = lambda n, k: ctx.sym(n, k)
            try:
                if how == 'sign':
                    ctx.call(o, 'sign', sy('priv', size), sy('digest', size), rand_k=sy('k', size))
                elif how == 'sign, drawn':
                    ctx.call(o, 'sign', sy('priv', size), sy('digest', size))
                elif how == 'verify':
                    Q = g.point(0, 1)
                    ctx.call(o, 'verify', SG_enc(ctx, Q, size), sy('digest', size), sy('sig', 2 * size))
                else:
                    ctx.call(o, 'public_key_generate', sy('priv', size))
            finally:
                after = it.canon(o)
                ctx.items += 1
                if after != before or w != (len(it.writes), len(it.class_writes)):
                    changed.add(str([a for (a, x), (b, y) in zip(before[2], after[2]) if x != y] or 'package data'))
            return 'ok'
        for kind, val, st in ctx.paths(body):
            pass
        if changed:
            ctx.note('%s: %s changes %s; decided by the obligations over particular arguments' % (name, how, sorted(changed)))
    return run


def SG_enc(ctx, Q, size):
    from . import sigmodel as SG
    return ctx.arr(tuple(SG.enc(ctx, Q[0], size)) + tuple(SG.enc(ctx, Q[1], size)))


def obligations(ctx):
    from . import sigmodel as SG
    out = []
    for s in subjects(ctx.tier, True):
        for p in s.states:
            if s.name == 'pbkdf' and p and ctx.tier == 'quick':
                continue
            out.append(('%s after %s' % (s.name, ','.join(p) or 'creation'), one(s, p)))
    for name in SG.tables(ctx):
        s = SG.subject(ctx, name)
        for p in s.states:
            out.append(('%s after %s' % (s.name, ','.join(p) or 'creation'), one(s, p)))
        for how in ('sign', 'sign, drawn', 'verify', 'public_key_generate'):
            out.append(('%s, unknown arguments: %s' % (s.name, how), sig(name, how)))
    return out

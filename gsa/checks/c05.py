"""Module-level objects, class attributes and default arguments are abstract
objects owned by the package.  Every operation of every kind of object, in every
enumerated state and also when it is refused, is analysed for writes to them
(stores to owned objects, rebinding of module names, class attributes and
function attributes).  Where there is one, the operation is followed by all
enumerated continuations of objects of every kind, created before (in two
states) and after it, and their results are compared with the terms they give
alone; public tables are compared with their content after import.  Only a
write that changes a result is reported."""
from .callers import *
from ..core import Enough
from .c03 import observe, cmp
from . import c01, c25

WARM = ('magma', 'kuznechik', 'hash')
ASSUMPTIONS = ['operation sequences are enumerated; contents are arbitrary',
               'values drawn at random are named by their order, so their use is not compared across objects']


def public_state(ctx):
    """Content of the public module-level data."""
    it = ctx.it
    out = {}
    for m in list(it.modules.values()):
        if isinstance(m, ModuleVal) and m.name.startswith('gostcrypto') and not m.name.startswith('gsa_'):
            for k, v in list(m.ns.items()):
                if k.startswith('_') or isinstance(v, (ClassVal, Func, ModuleVal, Builtin)):
                    continue
                if isinstance(v, Ref) and it.kind(v) == 'obj':
                    continue
                try:
                    out['%s.%s' % (m.name, k)] = it.canon(v)
                except Exception:
                    continue
    return out


def mark_writes(ctx):
    return len(ctx.it.writes), len(ctx.it.class_writes)


def seeds(ctx):
    """Byte strings whose seeds are not zero (the refusal of the zero seed is C21's)."""
    def f(name, n):
        if 'seed' not in name:
            return ctx.sym(name, n)
        return ctx.arr((0x5a,) + tuple(ctx.el(ctx.sym(name, n)))[1:])
    return f


def draws(ctx):
    from .. import builtins_ as B
    it = ctx.it
    it.rand_script = (0, lambda n: (0x5a,) * min(n, 1) + tuple(B.sym_bytes('rand#%d' % (it.rand_count - 1), n))[1:])


class Others:
    """Objects of every kind beside the one that is used."""

    def __init__(self, ctx, actor, subs):
        self.ctx, it = ctx, ctx.it
        self.b = seeds(ctx)
        self.subs = subs
        self.old = []
        for s in subs:
            for pre in s.states[:2]:
                o = s.make(ctx, self.b)
                self.old.append((s, pre, o))
        ctx.roots = [o for _, _, o in self.old]
        for s, pre, o in self.old:
            for lab in pre:
                s.run(ctx, o, lab, self.b)
        self.public = public_state(ctx)
        self.ref = None

    def views(self):
        for s, pre, o in self.old:
            for c in s.cont[:2]:
                yield s, pre, o, c
        for s in self.subs:
            yield s, None, None, s.cont[0]

    def results(self, start):
        ctx, it = self.ctx, self.ctx.it
        out = []
        for s, pre, o, c in self.views():
            it.restore(start)
            it.rand_count = 1000        # the same draws in both runs, none of an earlier operation
            r = []
            try:
                x = s.make(ctx, self.b) if o is None else o
                for lab in c + [None]:
                    try:
                        r += observe(ctx, s, x, [lab], self.b)[:1] if lab else observe(ctx, s, x, [], self.b)
                    except TargetExc as e:
                        r.append(('error of %s' % lab, ('s', ctx.text(ctx.error_of(e)[1]))))
            except TargetExc as e:
                r.append(('error', ('s', ctx.text(ctx.error_of(e)[1]))))
            out.append(r)
        it.restore(start)
        return out

    def compare(self, what, where, base):
        """Called after a write to the package's own state."""
        ctx, it = self.ctx, self.ctx.it
        now = it.snapshot()
        pub = public_state(ctx)
        for k, v in self.public.items():
            if k not in pub:
                ctx.fail('%s removes %s' % (what, k), where)
            elif pub[k] != v:
                cmp(ctx, [(k, v)], [(k, pub[k])], '%s: the write to the public %s' % (what, k), where)
        if self.ref is None:
            self.ref = self.results(base)
        got = self.results(now)
        for (s, pre, o, c), w, g in zip(self.views(), self.ref, got):
            desc = 'a new %s' % s.name if o is None else '%s created before (%s)' % (s.name, ','.join(pre) or 'unused')
            if [x[0] for x in w] != [x[0] for x in g]:
                ctx.fail('%s: then %s behaves differently' % (what, desc), where, soft=True)
                continue
            cmp(ctx, w, g, '%s (written: %s): on %s this' % (what, self.written(), desc), where)
        it.restore(now)

    def written(self):
        it = self.ctx.it
        out = [t for _, t, _, _ in it.writes[-3:]] + [str(x[:2]) for x in it.class_writes[-2:]]
        return ', '.join(sorted(set(out)))


def first_where(ctx, m):
    it = ctx.it
    for a, tag, w, tr in it.writes[m[0]:]:
        if tag != 'caller':
            return w
    return ''


def wrote(ctx, m):
    it = ctx.it
    return any(t != 'caller' for _, t, _, _ in it.writes[m[0]:]) or len(it.class_writes) > m[1]


def family(ctx, s):
    """Subjects an operation of s may share state with: one of each kind, every one of its own."""
    subs = subjects(ctx.tier)
    k = s.name.split()[0]
    keep = []
    for x in subs:
        if x.name.split()[0] == k or x.name in ('pbkdf', 'random') or x.name.startswith(('hash', 'hmac', 'mac', 'raw')) \
                or x.name in ('CTR magma', 'ECB kuznechik', 'OFB magma, 1-block register', 'CBC kuznechik, 1-block register'):
            keep.append(x)
    return [x for x in keep if x.name == s.name] + [x for x in keep if x.name != s.name and x.name.split()[0] == k] + \
        [x for x in keep if x.name.split()[0] != k]


def one(s, prefix, sig=()):
    def run(ctx):
        it = ctx.it

        def body():
            subs = None
            b = seeds(ctx)
            draws(ctx)
            base0 = it.snapshot()
            others, now = {}, [None]

            def judge(what, act):
                """act() from a state in which the other objects exist."""
                nonlocal subs
                m = mark_writes(ctx)
                act()
                ctx.items += 1
                if not wrote(ctx, m):
                    return
                # again, beside other objects, one kind at a time
                if subs is None:
                    subs = family(ctx, s) + [SG.subject(ctx, n) for n in sig]
                for x in subs:
                    it.restore(base0)
                    if x.name not in others:
                        others[x.name] = Others(ctx, s, [x])
                        others[x.name].base = it.snapshot()
                    cur = others[x.name]
                    it.restore(cur.base)
                    m = mark_writes(ctx)
                    now[0] = cur
                    act()
                    cur.compare(what, first_where(ctx, m), cur.base)
                    if ctx.found:
                        raise Enough()
                now[0] = None
                it.restore(base0)
            st = '%s after %s' % (s.name, ','.join(prefix) or 'creation')

            def create():
                o = s.make(ctx, b)
                ctx.roots = ([x for _, _, x in now[0].old] if now[0] else []) + [o]
                for lab in prefix:
                    s.run(ctx, o, lab, b)
                return o
            judge('%s: creation%s' % (s.name, ' and %s' % ','.join(prefix) if prefix else ''), create)
            for lab in list(s.ops) + ['attributes', 'finalisation', 'bad']:
                it.restore(base0)

                def act():
                    o = create()
                    if lab == 'attributes':
                        read_attrs(ctx, o)
                    elif lab == 'finalisation':
                        finalise(ctx, o)
                    elif lab == 'bad':
                        for mth in ('update', 'encrypt', 'decrypt', 'reset', 'sign'):
                            if ctx.has(o, mth):
                                c01.attempt(ctx, lambda: ctx.call(o, mth, 'text'))
                    else:
                        c01.attempt(ctx, lambda: s.run(ctx, o, lab, b))
                judge('%s: %s' % (st, lab), act)
            ctx.sample.append('%s: %d operations' % (st, len(s.ops) + 3))
        ctx.scenario(body, s.name, allow=s.allow)
    return run


def calls(name, mk, part):
    """Constructor calls, accepted and refused (the enumeration of C01)."""
    def run(ctx):
        it = ctx.it

        def body():
            base0 = it.snapshot()
            others = {}
            for what, f in mk(ctx)[part]:
                it.restore(base0)

                def act():
                    b = Args(ctx)
                    it.last_object = None
                    try:
                        o = f(b)
                    except TargetExc:
                        o = it.last_object
                    if isinstance(o, Ref) and o.addr in it.heap and it.kind(o) == 'obj':
                        c01.attempt(ctx, lambda: ctx.call(o, 'clear'))
                        c01.attempt(ctx, lambda: finalise(ctx, o))
                m = mark_writes(ctx)
                act()
                ctx.items += 1
                if not wrote(ctx, m):
                    continue
                it.restore(base0)
                for x in subjects(ctx.tier):
                    if x.name == 'oid':
                        continue
                    it.restore(base0)
                    if x.name not in others:
                        others[x.name] = Others(ctx, None, [x])
                        others[x.name].base = it.snapshot()
                    cur = others[x.name]
                    it.restore(cur.base)
                    m = mark_writes(ctx)
                    act()
                    cur.compare(what, first_where(ctx, m), cur.base)
                    if ctx.found:
                        raise Enough()
            ctx.sample.append('%s: %d calls' % (name, len(mk(ctx)[part])))
        ctx.scenario(body, name, allow=('seed value is zero',))
    return run


def abstract(name):
    """Signature operations with unknown arguments over an abstract base point."""
    def run(ctx):
        it = ctx.it
        it.LOOP_BOUND = 1

        def mk(what):
            def body():
                o, g, c, size = c25.setup(ctx, name)
                m = mark_writes(ctx)
                try:
                    if what == 'sign':
                        ctx.call(o, 'sign', ctx.sym('priv', size), ctx.sym('digest', size), rand_k=ctx.sym('k', size))
                    elif what == 'public_key_generate':
                        ctx.call(o, what, ctx.sym('priv', size))
                except TargetExc:
                    pass
                ctx.items += 1
                if wrote(ctx, m):
                    ctx.note('%s: %s writes to the package\'s own state (%s)' % (name, what, it.writes[-1][1] if it.writes else 'class'))
            return body
        for what in ('sign', 'public_key_generate'):
            for kind, val, st in ctx.paths(mk(what)):
                pass
    return run


def oids(ctx):
    def body():
        it = ctx.it
        base = it.snapshot()
        texts = ('1.2.643.7.1.1.2.2', '2.999.3', '1.2.643.7.1.2.1.1.1', '0.1', '1.2.643.7.1.1.6.1')

        def view(t):
            o = ctx.fn('gostoid', 'ObjectIdentifier', t)
            return [(k, it.canon(v)) for k, v in read_attrs(ctx, o)]
        want = {}
        for t in texts:
            it.restore(base)
            want[t] = view(t)
        it.restore(base)
        for i in range(2):
            for t in texts + texts[::-1]:
                for bad in ('', 'a.b', '3.1', '1.40.1'):
                    c01.attempt(ctx, lambda: ctx.fn('gostoid', 'ObjectIdentifier', bad))
                cmp(ctx, want[t], view(t), 'identifiers created before: on %s this' % t, '')
    ctx.scenario(body, 'oid')


def obligations(ctx):
    out = []
    for s in subjects(ctx.tier):
        if s.name == 'oid':
            continue
        for p in s.states:
            if ctx.tier == 'quick' and (len(p) > 1 and not s.name.startswith(('hash', 'mac', 'hmac')) or s.name == 'pbkdf' and p):
                continue
            out.append(('%s after %s' % (s.name, ','.join(p) or 'creation'), one(s, p)))
    for nm, mk, step in [(a, c01.cipher_calls(a), 60) for a in ALGS] + [('keyed functions', c01.keyed_calls, 12)]:
        n = len(mk(ctx))
        for i in range(0, n, step):
            out.append(('arguments of %s, calls %d to %d' % (nm, i + 1, min(n, i + step)), calls(nm, mk, slice(i, i + step))))
    names = list(SG.tables(ctx))
    for n in names:
        s = SG.subject(ctx, n)
        for p in s.states:
            out.append(('%s after %s' % (s.name, ','.join(p) or 'creation'), one(s, p, [x for x in names if x != n][:2] + [n])))
        out.append(('%s, unknown arguments' % n, abstract(n)))
    out.append(('object identifiers', oids))
    return out

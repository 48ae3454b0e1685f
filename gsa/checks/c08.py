"""Every rejected construction (each invalid argument of each constructor and
one-shot function, alone and combined with each other invalid argument, also of
types and values the documentation does not mention) is analysed up to the
exception; then the finalisers of all objects it left behind, in both orders and
twice, are analysed: no path of them may raise.  Documented rejections must end
in the package's own exception class; finalisers of accepted objects right after
construction are analysed the same way."""
from .arguments import *

WARM = ('magma', 'kuznechik', 'hash')
ASSUMPTIONS = ['arguments are enumerated by type, name and length; contents are arbitrary',
               'a finaliser runs once for every object the rejected call created and nothing else refers to']


def odd(ctx):
    """Values of several types for any argument."""
    it = ctx.it
    return [('None', lambda: None), ('-1', lambda: -1), ('0', lambda: 0), ('7', lambda: 7), ('1 << 70', lambda: 1 << 70),
            ('text', lambda: 'text'), ('empty text', lambda: ''), ('a list', lambda: it.new_list([1, 2])),
            ('an empty list', lambda: it.new_list([])), ('a dictionary', lambda: it.new_dict({})), ('a tuple', lambda: (1, 2)),
            ('empty bytes', lambda: b''), ('3 bytes', lambda: b'abc'), ('32 bytes', lambda: ctx.sym('other', 32)),
            ('65 bytes', lambda: ctx.sym('long', 65)), ('2.5', lambda: 2.5), ('True', lambda: True)]


def constructors(ctx):
    """(name, function, valid positional arguments, valid keyword arguments); argument values are made by calling them."""
    out = []
    A, sym = (lambda v: (lambda: v)), (lambda n, k: (lambda: ctx.sym(n, k)))
    for h in HASHES:
        out.append(('gosthash.new(%s)' % h, ctx.get('gosthash', 'new'), [A(h)], {'data': sym('data', 5)}))
    for h in HMACS:
        out.append(('gosthmac.new(%s)' % h, ctx.get('gosthmac', 'new'), [A(h), sym('key', 32)], {'data': sym('data', 5)}))
    for a in ALGS:
        bs = BS[a]
        for m in MODE:
            kw = {}
            if m in ('ECB', 'CBC'):
                kw['pad_mode'] = A(pad(ctx, 1))
            if m in ('CBC', 'CFB', 'OFB'):
                kw['init_vect'] = sym('iv', bs)
            if m == 'CTR':
                kw['init_vect'] = sym('iv', bs // 2)
            if m == 'MAC':
                kw['data'] = sym('data', 5)
            key = sym('key', 32) if a == 'magma' or ctx.tier != 'quick' else (lambda: ctx.arr(bytes(range(32))))
            out.append(('gostcipher.new(%s, %s)' % (a, m), ctx.get('gostcipher', 'new'), [A(a), key, A(mode(ctx, m))], kw))
        out.append((RAW[a], ctx.get('gostcipher', RAW[a]), [sym('key', 32)], {}))
    out.append(('gostpbkdf.new', ctx.get('gostpbkdf', 'new'), [sym('pw', 12)], {'salt': sym('salt', 8), 'counter': A(2)}))
    for bits in (256, 384):
        out.append(('gostrandom.new, %d bits' % bits, ctx.get('gostrandom', 'new'), [A(40)],
                    {'rand_k': sym('seed', bits // 8), 'size_s': A(bits // 8)}))
    for n, c in list(SG.tables(ctx).items())[:2]:
        out.append(('gostsignature.new(%s)' % n, ctx.get('gostsignature', 'new'), [A(SG.mode_of(ctx, SG.size_of(ctx, c))), A(c)], {}))
    out.append(('ObjectIdentifier', ctx.get('gostoid', 'ObjectIdentifier'), [A('1.2.643')], {}))
    return out


def own(ctx, e):
    """The exception is one of the package's classes."""
    c = e.cls
    return isinstance(c, ClassVal) and c.name.startswith('GOST')


def remains(ctx, first, what):
    """Finalise what the call left behind."""
    it = ctx.it
    live = {}
    for a in list(it.owner):
        if a in it.heap:
            it.reachable(Ref(a), live)
    for m in list(it.modules.values()):
        if isinstance(m, ModuleVal):
            for v in m.ns.values():
                if isinstance(v, Ref):
                    it.reachable(v, live)
                elif isinstance(v, ClassVal):
                    for x in v.ns.values():
                        if isinstance(x, Ref):
                            it.reachable(x, live)
    dead = [a for a in it.heap if a >= first and a not in live and it.heap[a][0] == 'obj']
    n = 0
    start = it.snapshot()
    for order in (dead, dead[::-1]):
        it.restore(start)
        for a in list(order) + list(order):
            cls = it.heap[a][1][0]
            if not isinstance(cls, ClassVal):
                continue
            f, _ = it.class_lookup(cls, '__del__')
            if f is None:
                continue
            n += 1
            ctx.items += 1
            try:
                it.call(Bound(f, Ref(a)), [], {})
            except TargetExc as e:
                if ctx.feasible():
                    return '%s: finalising the %s left behind raises %s (%s)' % (
                        what, cls.name, cls_name_(e), ctx.text(ctx.error_of(e)[1])), e.site
    it.restore(start)
    return None


def cls_name_(e):
    from ..interp import cls_name
    return cls_name(e.cls)


def judge(ctx, what, f, want, must_own):
    it = ctx.it

    def body():
        first = it.next_addr
        bad = None
        try:
            f()
        except TargetExc as e:
            if must_own and not own(ctx, e) and not (want is None and must_own == 'documented'):
                bad = ('%s: raises %s (%s), not an error of the package' % (what, cls_name_(e), ctx.text(ctx.error_of(e)[1])), e.site)
        return remains(ctx, first, what) or bad
    for kind, r, st in ctx.paths(body):
        if kind != 'ok':
            ctx.note('%s: %s' % (what, kind))
        elif r is not None:
            if ctx.feasible(st[1]):
                ctx.fail(*r)
            else:
                ctx.note('not decided: ' + r[0])


def documented(fam, args, part):
    def run(ctx):
        b = ba(ctx)
        table = [x for x in args(ctx, b, ctx.tier != 'quick') if x[3] is not None][part]
        for group, what, f, want in table:
            forget(ctx, lambda: judge(ctx, '%s: %s' % (group, what), f, want, True))
        ctx.sample.append('; '.join(x[1] for x in table[:4]))
    return run


def combined(part):
    """Each argument replaced by values of other types, and each pair of arguments."""
    def run(ctx):
        for name, fn, pos, kw in constructors(ctx)[part]:
            slots = list(range(len(pos))) + list(kw)
            vals = odd(ctx)

            def call(sub):
                p = [sub[i]() if i in sub else v() for i, v in enumerate(pos)]
                k = {n: (sub[n]() if n in sub else v()) for n, v in kw.items()}
                return ctx.it.call(fn, p, k)
            todo = [({}, 'valid arguments')]
            for s in slots:
                for d, v in vals:
                    todo.append(({s: v}, 'argument %s %s' % (s, d)))
            few = [v for v in vals if v[0] in ('None', '-1', 'text', '3 bytes', '65 bytes')]
            for i, s in enumerate(slots):
                for t in slots[i + 1:]:
                    for d, v in few:
                        for d2, v2 in few:
                            if ctx.tier == 'quick' and d != d2 and 'None' not in (d, d2):
                                continue
                            todo.append(({s: v, t: v2}, 'arguments %s %s and %s %s' % (s, d, t, d2)))
            for sub, what in todo:
                forget(ctx, lambda: judge(ctx, '%s with %s' % (name, what), lambda: call(sub), (), False))
            ctx.sample.append('%s: %d calls' % (name, len(todo)))
    return run


def obligations(ctx):
    out = []
    b = ba(ctx)
    for fam, args in families(ctx):
        n = len([x for x in args(ctx, b, ctx.tier != 'quick') if x[3] is not None])
        for i in range(0, n, 40):
            out.append(('%s, documented rejections %d to %d' % (fam, i + 1, min(n, i + 40)), documented(fam, args, slice(i, i + 40))))
    for i, c in enumerate(constructors(ctx)):
        out.append(('arguments of %s' % c[0], combined(slice(i, i + 1))))
    return out

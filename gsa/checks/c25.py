"""For every shipped curve, sign() is analysed with an abstract base point P and
unknown private key, digest and random values.  With a supplied random value k,
every path that returns is shown to return the encoding of r = x(kP) mod q and
s = (r*d + k*e) mod q, e the digest modulo q or 1; without one, every returning
path draws full-size values from the operating system's source and uses the last
one the same way.  Boundary values (0, q, q+1, the largest, values giving r = 0
or s = 0) are propagated as constants, both supplied and drawn from a scripted
source: the former are refused, the latter drawn again.  After signing, nothing
reachable from the object, the modules or the classes depends on the private
key, the digest's product or a random value, and a second signature depends on
its own draws only."""
import random
from ..common import *
from .. import core
from .. import group as G
from .. import zpoly as Z
from ..values import to_poly
from . import sigmodel as SG

ASSUMPTIONS = ['os.urandom and the secrets module are fresh and uniform', 'x(kP) is decided by C28',
               'the number of attempts with unknown draws is bounded by the loop bound; rejected draws are covered as constants too']


def setup(ctx, name):
    r = SG.abstract(ctx, name)
    if r is None:
        raise Unsupported('base point not found in the object')
    o, g, c = r
    return o, g, c, SG.size_of(ctx, SG.table(ctx, name))


def want(ctx, g, c, size, d, digest, k):
    return ref(ctx, 'sign', 'signature', g.point(to_poly(k))[0], ctx.by(d), ctx.by(digest), k, c['q'], size)


def supplied(name, kind):
    def run(ctx):
        def body():
            it = ctx.it
            o, g, c, size = setup(ctx, name)
            mk = ctx.arr if kind == 'bytearray' else ctx.by
            d, e, k = (ctx.el(ctx.sym(n, size)) for n in ('priv', 'digest', 'k'))
            got = ctx.frozen(ctx.call(o, 'sign', mk(d), mk(e), rand_k=mk(k)))
            if len(ctx.el(got)) != 2 * size:
                ctx.fail('%s: the signature has %d bytes' % (name, len(ctx.el(got))), ctx.where(o, 'sign'))
                return 'ok'
            ctx.eq(got, want(ctx, g, c, size, d, e, it.int_from_bytes(ctx.by(k))),
                   '%s: the signature is not (x(kP) mod q, r*d + k*e mod q)' % name, ctx.where(o, 'sign'), content=True)
            if it.rand_calls:
                ctx.fail('%s: a supplied random value is not used alone: %s is drawn' % (name, it.rand_calls[0][:2]), ctx.where(o, 'sign'))
            return 'ok'
        judge(ctx, body, name)
    return run


DOCUMENTED = ('invalid private key value', 'invalid random value', 'invalid digest value')


def judge(ctx, body, name, need_ok=True):
    oks = 0
    for kind, val, st in ctx.paths(body):
        if kind == 'ok':
            oks += 1
        elif kind == 'exc':
            cl, msg = ctx.error_of(val)
            if not (cl == 'GOSTSignatureError' and any(m in ctx.text(msg) for m in DOCUMENTED)):
                if ctx.feasible(st[1]):
                    ctx.fail('%s: sign raises %s (%s)' % (name, cl, ctx.text(msg)), val.site)
    if need_ok and not oks:
        ctx.fail('%s: no path of sign returns a signature' % name)
    ctx.sample.append('%s: %d returning paths' % (name, oks))


def drawn(name):
    def run(ctx):
        ctx.it.LOOP_BOUND = 1 if ctx.tier == 'quick' else 2

        def body():
            it = ctx.it
            o, g, c, size = setup(ctx, name)
            d, e = (ctx.el(ctx.sym(n, size)) for n in ('priv', 'digest'))
            base = len(it.rand_calls)
            got = ctx.frozen(ctx.call(o, 'sign', ctx.arr(d), ctx.arr(e)))
            check_draws(ctx, it.rand_calls[base:], size, o, name)
            if not it.rand_calls[base:]:
                return 'ok'
            nm, n = it.rand_calls[-1][:2]
            if n == 'below':
                z = ZInt(Z.zatom(('sym', nm)))
                ks = [z, ZInt(Z.add(z.poly, Z.const(1)))]
            else:
                ks = [it.int_from_bytes(ctx.by(B.sym_bytes(nm, n)))]
            ws = [want(ctx, g, c, size, d, e, k) for k in ks]
            if any(it.canon(ctx.by(ctx.el(w))) == it.canon(ctx.by(ctx.el(got))) for w in ws):
                ctx.items += 1
                return 'ok'
            ctx.eq(got, ws[-1], '%s: the signature is not computed from the value drawn last' % name, ctx.where(o, 'sign'),
                   content=True)
            return 'ok'
        judge(ctx, body, name)
    return run


def check_draws(ctx, draws, size, o, name):
    ctx.items += len(draws)
    if not draws:
        ctx.fail('%s: a signature is made without drawing a random value' % name, ctx.where(o, 'sign'))
    for nm, n, where, _ in draws:
        if not nm.startswith('rand#'):
            ctx.fail('%s: the nonce comes from a generator that is not the operating system\'s' % name, where)
        elif n != 'below' and n < size:
            ctx.fail('%s: only %d random bytes are drawn for a nonce of %d' % (name, n, size), where)


def enc(n, size):
    return n.to_bytes(size, 'big')


def constant_sig(c, size, d, e, k):
    cu = G.Curve(c['p'], c['a'])
    q = c['q']
    r = cu.mul(k, (c['x'], c['y']))[0] % q
    s = (r * d + k * (e % q or 1)) % q
    if r == 0 or s == 0:
        return None
    return enc(r, size) + enc(s, size)


def cases(c, size):
    """(what, private key, digest, nonce, usable)"""
    q = c['q']
    top = (1 << size * 8) - 1
    rng = random.Random(repr(('c25', q)))
    d, e = rng.randrange(1, q), rng.randrange(1, q)
    cu = G.Curve(c['p'], c['a'])
    out = [('k = 0', d, e, 0), ('k = q', d, e, q), ('k = q+1', d, e, q + 1), ('the largest k', d, e, top)]
    out += [('k = %d' % k, d, e, k) for k in (1, 2, 5)]
    for k in (1, 3, 6):
        r = cu.mul(k, (c['x'], c['y']))[0] % q
        if r:
            out.append(('s = 0', -k * e * pow(r, -1, q) % q, e, k))
    out += [('digest 0', d, 0, 5), ('digest q', d, q, 6), ('digest q+1', d, q + 1, 7), ('digest 1', d, 1, 3),
            ('the largest digest', d, top, 9), ('largest private key', top, e, 7), ('private key q-1', q - 1, e, 4)]
    for i in range(2, 5):
        out += [('digest %dq' % i, d, i * q, 4 + i), ('digest %dq-1' % i, d, i * q - 1, 3), ('digest %dq+1' % i, d, i * q + 1, 3),
                ('private key %dq+1' % i, i * q + 1, e, 5)]
    return [x for x in out if max(x[1], x[2], x[3]) <= top]


def boundary(name):
    """Constants, supplied by the caller."""
    def run(ctx):
        def body():
            it = ctx.it
            o = SG.make(ctx, name)
            c = SG.canonical(ctx, SG.table(ctx, name))
            size = SG.size_of(ctx, SG.table(ctx, name))
            start = it.snapshot()
            where = ctx.where(o, 'sign')
            for what, d, e, k in cases(c, size):
                w = constant_sig(c, size, d, e, k) if 0 < k < c['q'] else None
                it.restore(start)
                ctx.items += 1
                try:
                    got = ctx.frozen(ctx.call(o, 'sign', ctx.arr(enc(d, size)), ctx.arr(enc(e, size)),
                                              rand_k=ctx.arr(enc(k, size))))
                except TargetExc as ex:
                    cl, msg = ctx.error_of(ex)
                    if w is not None:
                        ctx.fail('%s: signing with %s is refused (%s)' % (name, what, ctx.text(msg)), ex.site)
                    elif (cl, msg) != ('GOSTSignatureError', 'GOSTSignatureError: invalid random value'):
                        ctx.fail('%s: a supplied random value with %s raises %s (%s)' % (name, what, cl, ctx.text(msg)), ex.site)
                    continue
                if w is None:
                    ctx.fail('%s: a supplied random value with %s is used' % (name, what), where)
                else:
                    ctx.eq(got, ctx.by(tuple(w)), '%s: wrong signature (%s)' % (name, what), where, content=True)
            ctx.sample.append('%s: %d boundary values' % (name, len(cases(c, size))))
        ctx.scenario(body, name)
    return run


def scripted(name, max_draws):
    """Constants, drawn from the random source."""
    def run(ctx):
        def body():
            it = ctx.it
            o = SG.make(ctx, name)
            c = SG.canonical(ctx, SG.table(ctx, name))
            size = SG.size_of(ctx, SG.table(ctx, name))
            q = c['q']
            start = it.snapshot()
            where = ctx.where(o, 'sign')
            n = 0
            scripts = []
            for what, d, e, k in cases(c, size):
                scripts.append((what, d, e, [k, 4]))
            d, e = scripts[0][1:3]
            top = (1 << size * 8) - 1
            bad = [k for k in (0, q, top, q + 5) if k <= top]
            scripts.append(('several unusable values', d, e, bad[:max_draws] + [3]))
            z = [x for x in cases(c, size) if x[0] == 's = 0']
            for what, d1, e1, k in z[:1]:
                scripts.append(('s = 0, then unusable values', d1, e1, [k] + bad[:2] + [k] + [8]))
                scripts.append(('unusable values, then s = 0', d1, e1, bad[:2] + [k] + [8]))
            for what, d, e, ks in scripts:
                w = used = None
                for i, k in enumerate(ks):
                    if 0 < k < q:
                        w = constant_sig(c, size, d, e, k)
                        if w is not None:
                            used = i
                            break
                if w is None:
                    continue
                n += 1
                it.restore(start)
                it.rand_script = (it.rand_count, [enc(k, size) for k in ks])
                base = len(it.rand_calls)
                got = None
                try:
                    got = ctx.frozen(ctx.call(o, 'sign', ctx.arr(enc(d, size)), ctx.arr(enc(e, size))))
                except TargetExc as ex:
                    ctx.fail('%s: sign raises %s when the source yields %s' % (name, ctx.text(ctx.error_of(ex)[1]), what), ex.site)
                finally:
                    it.rand_script = None
                check_draws(ctx, it.rand_calls[base:], size, o, name)
                if got is None:
                    continue
                if any(not isinstance(x, int) for x in ctx.el(got)):
                    ctx.fail('%s: %s: a usable random value (draw %d) is not used' % (name, what, used + 1), where)
                    continue
                ctx.eq(got, ctx.by(tuple(w)), '%s: %s drawn: the signature is not the one of the first usable value' % (name, what),
                       where, content=True)
            ctx.sample.append('%s: %d scripted sources' % (name, n))
        ctx.scenario(body, name)
    return run


def reach(ctx, roots):
    """Inputs on which anything stored in the objects, modules, classes or default arguments depends."""
    it = ctx.it
    d = core.Deps(it)
    out = {}
    todo = list(roots) + [Ref(a) for a in it.owner if a in it.heap]
    for m in it.modules.values():
        if isinstance(m, ModuleVal) and not m.name.startswith('gsa_'):
            for k, v in m.ns.items():
                todo.append(v)
                if isinstance(v, ClassVal):
                    todo.extend(v.ns.values())
    for v in todo:
        if isinstance(v, (StaticM, ClassM)):
            v = v.f
        if isinstance(v, Func):
            todo_d = list(getattr(v, 'defaults', None) or ()) + list((getattr(v, 'kw_defaults', None) or {}).values())
            for x in todo_d:
                for path, ins in d.value(x).items():
                    out[v.qual + ' default ' + path] = ins
            continue
        for path, ins in d.value(v).items():
            out[path] = ins
    return out


def stored(name, given):
    def run(ctx):
        ctx.it.LOOP_BOUND = 1 if ctx.tier == 'quick' else 2

        def body():
            it = ctx.it
            o, g, c, size = setup(ctx, name)
            kw = {'rand_k': ctx.sym('k', size)} if given else {}
            args = [ctx.sym('priv', size), ctx.sym('digest', size)]
            try:
                ctx.call(o, 'sign', *args, **kw)
                res = 'ok'
            except TargetExc as ex:
                if ctx.error_of(ex)[0] != 'GOSTSignatureError':
                    raise
                res = 'rejected'
            ctx.items += 1
            bad = {p: sorted(str(x) for x in i) for p, i in reach(ctx, [o]).items()
                   if any(str(x) in ('priv', 'k') or str(x).startswith(('rand#', 'prng#')) for x in i)}
            if bad:
                p = sorted(bad)[0]
                ctx.fail('%s: after sign (%s) a value depending on %s is stored in %s' % (name, res, bad[p], p), ctx.where(o, 'sign'))
            return 'ok'
        judge(ctx, body, name)
    return run


def twice(name):
    def run(ctx):
        ctx.it.LOOP_BOUND = 1

        def body():
            it = ctx.it
            o, g, c, size = setup(ctx, name)
            d = core.Deps(it)
            ctx.call(o, 'sign', ctx.sym('priv', size), ctx.sym('digest', size))
            b = len(it.rand_calls)
            r = ctx.call(o, 'sign', ctx.sym('priv2', size), ctx.sym('digest2', size))
            own = {x[0] for x in it.rand_calls[b:]}
            ins = {str(x) for v in d.value(r).values() for x in v}
            ctx.items += 1
            if not own:
                ctx.fail('%s: the second signature draws no random value' % name, ctx.where(o, 'sign'))
            bad = [x for x in ins if x in ('priv', 'digest') or x.startswith('rand#') and x not in own]
            if bad:
                ctx.fail('%s: the second signature depends on %s of the first' % (name, bad), ctx.where(o, 'sign'))
            return 'ok'
        judge(ctx, body, name)
    return run


def obligations(ctx):
    out = []
    sizes = set()
    for name in SG.tables(ctx):
        first = SG.size_of(ctx, SG.table(ctx, name)) not in sizes
        sizes.add(SG.size_of(ctx, SG.table(ctx, name)))
        for kind in ('bytearray', 'bytes'):
            out.append(('%s supplied %s' % (name, kind), supplied(name, kind)))
        out.append((name + ' drawn', drawn(name)))
        out.append((name + ' boundary values supplied', boundary(name)))
        out.append((name + ' boundary values drawn', scripted(name, 3)))
        out.append((name + ' storage after a supplied value', stored(name, True)))
        if first or ctx.tier != 'quick':
            out.append((name + ' storage after a drawn value', stored(name, False)))
        if SG.size_of(ctx, SG.table(ctx, name)) == 32 or first or ctx.tier != 'quick':
            out.append((name + ' two signatures', twice(name)))
    for name in SG.callers(ctx):
        if SG.plain(ctx, SG.table(ctx, name))['x']:
            out.append((name + ' supplied bytearray', supplied(name, 'bytearray')))
        if SG.size_of(ctx, SG.table(ctx, name)) == 32:
            out.append((name + ' boundary values supplied', boundary(name)))
    return out

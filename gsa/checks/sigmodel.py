"""Signature objects whose base point (and public key) are abstract points."""
from ..common import *
from .. import group as G
from ..spec import callercurves as CC


def tables(ctx):
    it = ctx.it
    t = ctx.get('gostsignature', 'CURVES_R_1323565_1_024_2019')
    return {k: v for k, v in it.payload(t).items()}


def callers(ctx):
    """Curves that are not shipped: a = 0, b = 0 (cofactor 2), base point with x = 0."""
    out = {'caller curve, a = 0, 256 bits': CC.A0_32, 'caller curve, b = 0, 256 bits': CC.B0_32,
           'caller curve, a = 0, 512 bits': CC.A0_64, 'caller curve, b = 0, 512 bits': CC.B0_64}
    for name in tables(ctx):
        c = canonical(ctx, tables(ctx)[name])
        p, q = c['p'], c['q']
        y = pow(c['b'], (p + 1) // 4, p)
        if p % 4 == 3 and y * y % p == c['b'] % p and c.get('m', q) == q:
            k = {n: c[n] for n in ('p', 'a', 'b', 'm', 'q')}
            out['%s with the base point x = 0' % name] = dict(k, x=0, y=y)
    return out


def table(ctx, name):
    t = tables(ctx)
    if name in t:
        return t[name]
    c = callers(ctx)
    if name in c:
        return c[name]
    raise Unsupported('no curve %s' % name)


def size_of(ctx, curve):
    c = plain(ctx, curve)
    return 64 if max(c['p'], c['q']).bit_length() > 300 else 32


def plain(ctx, curve):
    return curve if isinstance(curve, dict) else ctx.it.payload(curve)


def mode_of(ctx, size):
    return ctx.get('gostsignature', 'MODE_512' if size == 64 else 'MODE_256')


def make(ctx, name, curve=None):
    c = table(ctx, name) if curve is None else curve
    if isinstance(c, dict):
        c = ctx.it.new_dict(dict(c))
    return ctx.fn('gostsignature', 'new', mode_of(ctx, size_of(ctx, c)), c)


def canonical(ctx, curve):
    """Parameters of the canonical form, by the definition of the birational map."""
    c = dict(plain(ctx, curve))
    p = c['p']
    a, b, x, y = (c.get(k, 0) for k in 'abxy')
    if (a, b, x, y) == (0, 0, 0, 0):
        e, d, u, v = c['e'], c['d'], c['u'], c['v']
        s = (e - d) * pow(4, -1, p) % p
        t = (e + d) * pow(6, -1, p) % p
        a = (s * s - 3 * t * t) % p
        b = (2 * t ** 3 - t * s * s) % p
        x = (s * (1 + v) * pow(1 - v, -1, p) + t) % p
        y = s * (1 + v) * pow((1 - v) * u, -1, p) % p
    c.update(a=a, b=b, x=x, y=y)
    return c


def replace_ints(ctx, root, table):
    """Replace integers in everything the object owns; number of replacements."""
    it = ctx.it
    n = [0]
    seen = set()

    def val(v):
        if isinstance(v, int) and not isinstance(v, bool) and v in table:
            n[0] += 1
            return table[v]
        if isinstance(v, tuple):
            return tuple(val(x) for x in v)
        if isinstance(v, Ref):
            walk(v)
        return v

    def walk(r):
        if r.addr in seen or r.addr in it.owner:
            return
        seen.add(r.addr)
        k, p = it.heap[r.addr]
        if k == 'list':
            it.heap[r.addr] = (k, tuple(val(x) for x in p))
        elif k == 'dict':
            it.heap[r.addr] = (k, {a: val(b) for a, b in p.items()})
        elif k == 'obj':
            it.heap[r.addr] = (k, (p[0], {a: val(b) for a, b in p[1].items()}))
    walk(root)
    return n[0]


def abstract(ctx, name):
    """(object, group, parameters): the base point is an abstract point P."""
    it = ctx.it
    o = make(ctx, name)
    c = canonical(ctx, table(ctx, name))
    g = G.Group(it, c['p'], c['a'], c['b'], c['q'], (c['x'], c['y']))
    G.activate(it, g)
    X, Y = g.point(1, 0)
    if replace_ints(ctx, o, {c['x']: X, c['y']: Y}) < 2:
        ctx.note('the object does not keep the base point as two integers')
        return None
    return o, g, c


def enc(ctx, v, size):
    """Fixed-width big-endian bytes of an integer."""
    return ctx.it.byte_items(ctx.it.call(ctx.it.getattr(v, 'to_bytes'), [size, 'big'], {}))


def subject(ctx, name):
    """A signature object used with particular small arguments (constant propagation)."""
    c = canonical(ctx, table(ctx, name))
    size = size_of(ctx, table(ctx, name))
    cu = G.Curve(c['p'], c['a'])
    P = (c['x'], c['y'])
    e = lambda n: n.to_bytes(size, 'big')
    Q = cu.mul(2, P)
    R = cu.mul(5, P)
    from .c28 import signature_for
    dig, sg = signature_for(c, cu, Q, 2, 3, size)

    def m(meth, *args, **kw):
        def f(ctx, o, b, use):
            return use(ctx, o, meth, *[ctx.arr(x) for x in args], **{k: ctx.arr(v) for k, v in kw.items()})
        return f
    ops = {
        'public_key_generate(2)': (m('public_key_generate', e(2)), True),
        'public_key_generate(5)': (m('public_key_generate', e(5)), True),
        'sign': (m('sign', e(2), e(3), rand_k=e(2)), True),
        'sign digest 0': (m('sign', e(3), e(0), rand_k=e(3)), True),
        'verify genuine': (m('verify', e(Q[0]) + e(Q[1]), dig, sg), True),
        'sign again': (m('sign', e(3), e(4), rand_k=e(2)), True),
        'verify other key': (m('verify', e(R[0]) + e(R[1]), dig, sg), True),
        'verify wrong': (m('verify', e(Q[0]) + e(Q[1]), dig, sg[:-1] + bytes([sg[-1] ^ 1])), True) if size == 0 else
                        (m('verify', e(Q[0]) + e(Q[1]), dig, bytes(2 * size)), True),
    }
    return Subject('signature ' + name, lambda ctx, b: make(ctx, name), ops, [[], ['sign'], ['verify genuine']],
                   [['public_key_generate(2)', 'sign'], ['verify other key', 'sign again', 'verify genuine', 'sign digest 0', 'public_key_generate(5)']])

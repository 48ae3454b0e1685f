"""Building blocks shared by the checks."""
import os

from . import forms as F
from . import zpoly as Z
from . import summ as S
from . import builtins_ as B
from .core import Missing, Violation
from .interp import TargetExc, Unsupported, Bound
from .values import *

HERE = os.path.dirname(os.path.abspath(__file__))
ECB, CBC, CFB, OFB, CTR, MAC = 0x01, 0x02, 0x03, 0x05, 0x06, 0xff
MODE = {'ECB': 'MODE_ECB', 'CBC': 'MODE_CBC', 'CFB': 'MODE_CFB', 'OFB': 'MODE_OFB', 'CTR': 'MODE_CTR',
        'MAC': 'MODE_MAC'}
BS = {'kuznechik': 16, 'magma': 8}
ALGS = ('magma', 'kuznechik')
HASHES = ('streebog256', 'streebog512')
HMACS = ('HMAC_GOSTR3411_2012_256', 'HMAC_GOSTR3411_2012_512')
RAW = {'kuznechik': 'GOST34122015Kuznechik', 'magma': 'GOST34122015Magma'}


def mode(ctx, name):
    return ctx.get('gostcipher', MODE[name])


def pad(ctx, n):
    return ctx.get('gostcipher', 'PAD_MODE_%d' % n)


def raw(ctx, alg, key=None):
    key = ctx.sym('key', 32) if key is None else key
    return ctx.fn('gostcipher', RAW[alg], key)


def new(ctx, alg, m, key=None, **kw):
    key = ctx.sym('key', 32) if key is None else key
    return ctx.fn('gostcipher', 'new', alg, key, mode(ctx, m), **kw)


def hash_(ctx, name, **kw):
    return ctx.fn('gosthash', 'new', name, **kw)


def hmac(ctx, name, key=None, **kw):
    key = ctx.sym('key', 32) if key is None else key
    return ctx.fn('gosthmac', 'new', name, key, **kw)


def default_iv(m, alg):
    bs = BS[alg]
    if m == 'CTR':
        return bs // 2
    return bs


def stream(ctx, alg, m, n=1, padm=1, key=None, iv=None):
    """A cipher object with symbolic key and initialization vector of n blocks."""
    kw = {}
    bs = BS[alg]
    if m in ('CBC', 'CFB', 'OFB'):
        kw['init_vect'] = ctx.sym('iv', bs * n) if iv is None else iv
    elif m == 'CTR':
        kw['init_vect'] = ctx.sym('iv', bs // 2) if iv is None else iv
    if m in ('ECB', 'CBC') and padm is not None:
        kw['pad_mode'] = pad(ctx, padm)
    return new(ctx, alg, m, key, **kw)


_SPECS = {}


def spec(ctx, name):
    """A reference definition, loaded by the same analyser."""
    it = ctx.it
    key = 'gsa_spec_' + name
    if key in it.modules:
        return it.modules[key].ns
    src = ''
    if name in ('kuznechik', 'magma', 'streebog'):
        with open(os.path.join(HERE, 'spec', 'tables.py')) as fh:
            src = fh.read() + '\n'
    p = os.path.join(HERE, 'spec', name + '.py')
    with open(p) as fh:
        src += fh.read()
    return it.load_source(key, src, p).ns


def warm(ctx, kinds):
    """Compute the summaries once, before the obligations are forked."""
    it = ctx.it
    for k in kinds:
        if k.startswith('spec:'):
            spec(ctx, k[5:])
    if it.summ is None:
        return
    snap = it.snapshot()
    fm, zm, um = F.mark(), Z.mark(), len(S._KEYLIST)
    for k in kinds:
        try:
            if k in BS:
                o = raw(ctx, k)
                b = ctx.sym('warm', BS[k])
                e = ctx.call(o, 'encrypt', b)
                ctx.call(o, 'decrypt', b)
                ctx.call(o, 'decrypt', e)
            elif k == 'hash':
                o = hash_(ctx, 'streebog256', data=ctx.sym('warm', 65))
                ctx.call(o, 'digest')
                ctx.call(o, 'update', ctx.sym('warm2', 63))
                ctx.call(o, 'digest')
        except (TargetExc, Unsupported, Missing, Violation):
            pass
    it.restore(snap)
    it.summ.forget(fm, zm, um)
    del it.writes[:]
    it.summ.used.clear()


# ------------------------------------------------------------ finalisation
def collect(ctx, roots, mark):
    """Run the finalisers of objects created since mark that nothing reaches any more."""
    it = ctx.it
    seen = {}
    for r in roots:
        if not isinstance(r, Ref) or r.addr in it.heap:
            it.reachable(r, seen)
    for a in list(it.owner):
        if a in it.heap:
            it.reachable(Ref(a), seen)
    for m in list(it.modules.values()):
        if isinstance(m, ModuleVal):
            for v in m.ns.values():
                if isinstance(v, Ref):
                    it.reachable(v, seen)
    dead = [a for a in it.heap if a >= mark and a not in seen and it.heap[a][0] == 'obj']
    for a in dead:
        cls = it.heap[a][1][0]
        if not isinstance(cls, ClassVal):
            continue
        f, _ = it.class_lookup(cls, '__del__')
        if f is not None:
            it.call(Bound(f, Ref(a)), [], {})


def mark(ctx):
    return ctx.it.next_addr


def op(ctx, o, name, *a, **k):
    """Call a method, then finalise the temporaries it left behind."""
    m = mark(ctx)
    r = ctx.call(o, name, *a, **k)
    collect(ctx, [o, r] + list(a) + list(k.values()) + list(getattr(ctx, 'roots', ())), m)
    return r


def finalise(ctx, o):
    it = ctx.it
    f, _ = it.class_lookup(it.payload(o)[0], '__del__')
    if f is not None:
        it.call(Bound(f, o), [], {})


def pieces(n, cuts):
    cuts = [0] + list(cuts) + [n]
    return list(zip(cuts, cuts[1:]))


# ------------------------------------------------------------ subjects
class Subject:
    """One kind of object of the public API.

    make(ctx, b): construct; b(name, n) builds byte arguments
    ops: label -> (function(ctx, o, b), read_only)
    states: sequences of labels that bring a new object into different states
    cont: sequences of labels whose results are observed afterwards
    """

    allow = ()

    def __init__(self, name, make, ops, states, cont, kinds=()):
        self.name, self.make, self.ops, self.states, self.cont, self.kinds = name, make, ops, states, cont, kinds

    def run(self, ctx, o, label, b, use=op):
        return self.ops[label][0](ctx, o, b, use)


def ba(ctx):
    return lambda name, n: ctx.sym(name, n)


def bb(ctx):
    return lambda name, n: ctx.sym(name, n, 'bytes')


def _m(name, *args):
    def f(ctx, o, b, use):
        a = [b(*x) if isinstance(x, tuple) else x for x in args]
        return use(ctx, o, name, *a)
    return f


def subjects(tier='quick', wide=False):
    out = []
    for h in HASHES:
        ops = {
            'digest': (_m('digest'), True), 'hexdigest': (_m('hexdigest'), True),
            'copy': (_m('copy'), True),
            'reset': (_m('reset'), False),
        }
        for n in (0, 1, 5, 63, 64, 70, 200):
            ops['update(%d)' % n] = (_m('update', ('d%d' % n, n)), False)
        out.append(Subject(
            'hash ' + h, lambda ctx, b, h=h: hash_(ctx, h),
            ops, [[], ['update(5)'], ['update(64)'], ['update(70)'], ['update(63)', 'update(1)'],
                  ['update(70)', 'reset'], ['update(5)', 'digest', 'update(64)'], ['update(0)']],
            [['digest'], ['update(5)', 'digest'], ['update(64)', 'digest', 'update(63)', 'hexdigest'],
             ['reset', 'digest'], ['reset', 'update(70)', 'digest']], ('hash',)))
    for h in HMACS:
        ops = {
            'digest': (_m('digest'), True), 'hexdigest': (_m('hexdigest'), True), 'copy': (_m('copy'), True),
            'reset': (_m('reset'), False), 'clear': (_m('clear'), False),
        }
        for n in (0, 5, 64, 70, 200):
            ops['update(%d)' % n] = (_m('update', ('d%d' % n, n)), False)
        for kl in ((32,) if h == HMACS[1] else (64,)):
            out.append(Subject(
                'hmac %s' % h, lambda ctx, b, h=h, kl=kl: hmac(ctx, h, b('key', kl)),
                ops, [[], ['update(5)'], ['update(64)'], ['update(70)', 'reset'], ['update(0)'],
                      ['update(5)', 'digest', 'update(64)']],
                [['digest'], ['update(5)', 'digest'], ['update(70)', 'hexdigest', 'reset', 'update(5)', 'digest']],
                ('hash',)))
    for a in ALGS:
        bs = BS[a]
        ops = {'digest': (_m('digest', bs), True), 'digest(4)': (_m('digest', 4), True),
               'hexdigest': (_m('hexdigest', bs), True), 'clear': (_m('clear'), False)}
        for n in (0, 3, bs, bs + 3, 2 * bs, 2 * bs + 1):
            ops['update(%d)' % n] = (_m('update', ('d%d' % n, n)), False)
        out.append(Subject(
            'mac ' + a, lambda ctx, b, a=a: new(ctx, a, 'MAC', b('key', 32)), ops,
            [[], ['update(3)'], ['update(%d)' % bs], ['update(%d)' % (bs + 3)], ['update(%d)' % (2 * bs)],
             ['update(3)', 'digest', 'update(%d)' % bs]],
            [['digest'], ['update(3)', 'digest'], ['update(%d)' % bs, 'digest', 'update(%d)' % (2 * bs + 1), 'hexdigest'],
             ['update(0)', 'digest(4)']], (a,)))
        ops = {'encrypt': (_m('encrypt', ('d', bs)), True), 'decrypt': (_m('decrypt', ('d', bs)), True),
               'encrypt2': (_m('encrypt', ('e', bs)), True), 'decrypt2': (_m('decrypt', ('e', bs)), True),
               'clear': (_m('clear'), False)}
        out.append(Subject('raw ' + a, lambda ctx, b, a=a: raw(ctx, a, b('key', 32)), ops,
                           [[], ['encrypt'], ['decrypt']],
                           [['encrypt'], ['decrypt'], ['decrypt2', 'encrypt2']], (a,)))
        for m in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR'):
            ops = {'clear': (_m('clear'), False)}
            for n in (0, 3, bs, bs + 3, 2 * bs, 3 * bs) + ((6 * bs,) if wide else ()):
                ops['encrypt(%d)' % n] = (_m('encrypt', ('d%d' % n, n)), m == 'ECB')
                ops['decrypt(%d)' % n] = (_m('decrypt', ('d%d' % n, n)), m == 'ECB')
            for nb in ((1,) if m in ('ECB', 'CTR') else (1, 2, 4) if wide else (1, 2)):
                def mk(ctx, b, a=a, m=m, nb=nb):
                    iv = None
                    if m in ('CBC', 'CFB', 'OFB'):
                        iv = b('iv', BS[a] * nb)
                    elif m == 'CTR':
                        iv = b('iv', BS[a] // 2)
                    return stream(ctx, a, m, nb, 2 if m == 'CBC' and nb == 2 else 1, b('key', 32), iv)
                out.append(Subject(
                    '%s %s, %d-block register' % (m, a, nb) if m not in ('ECB', 'CTR') else '%s %s' % (m, a), mk, ops,
                    [[], ['encrypt(%d)' % bs], ['encrypt(%d)' % (2 * bs)], ['decrypt(%d)' % bs], ['encrypt(3)']],
                    [['encrypt(%d)' % (2 * bs)], ['decrypt(%d)' % (2 * bs)],
                     ['encrypt(3)', 'decrypt(%d)' % (bs + 3)], ['decrypt(%d)' % bs, 'encrypt(%d)' % (bs + 3)]]
                    + ([['encrypt(%d)' % (6 * bs)], ['decrypt(%d)' % (6 * bs)]] if nb > 2 else []), (a,)))
    ops = {'derive': (_m('derive', 32), True), 'derive(65)': (_m('derive', 65), True),
           'hexderive': (_m('hexderive', 32), True), 'clear': (_m('clear'), False)}
    out.append(Subject('pbkdf', lambda ctx, b: ctx.fn('gostpbkdf', 'new', b('pw', 12), salt=b('salt', 8), counter=2),
                       ops, [[], ['derive']], [['derive'], ['hexderive']], ('hash',)))
    ops = {'random': (_m('random'), False), 'reset': (_m('reset', ('seed2', 32)), False), 'clear': (_m('clear'), False),
           'reset without seed': (_m('reset'), False)}
    out.append(Subject('random', lambda ctx, b: ctx.fn('gostrandom', 'new', 40, rand_k=b('seed', 32), size_s=32), ops,
                       [[], ['random'], ['random', 'reset']],
                       [['random', 'reset without seed', 'random'], ['reset', 'random', 'random']], ('hash',)))
    out[-1].allow = ('seed value is zero',)
    ops = {}
    out.append(Subject('oid', lambda ctx, b: ctx.fn('gostoid', 'ObjectIdentifier', '1.2.643.7.1.1.2.2'), ops, [[]], [[]]))
    return out


def public_attrs(ctx, o):
    """Names of the properties and public instance attributes of an object."""
    it = ctx.it
    cls, fl = it.payload(o)
    names = []
    for c in it.mro(cls):
        if isinstance(c, ClassVal):
            for k, v in c.ns.items():
                if isinstance(v, PropVal) and not k.startswith('_') and k not in names:
                    names.append(k)
    for k in fl:
        if not k.startswith('_') and k not in names:
            names.append(k)
    return names


def read_attrs(ctx, o, deep=True):
    """Read every public attribute (and those of objects they return)."""
    it = ctx.it
    out = []
    for k in public_attrs(ctx, o):
        v = ctx.attr(o, k)
        out.append((k, v))
        if deep and isinstance(v, Ref) and it.kind(v) == 'obj':
            out += [(k + '.' + k2, v2) for k2, v2 in read_attrs(ctx, v, False)]
    return out


# ------------------------------------------------------------ reference functions over the package's primitives
def native(fn, name='spec'):
    return Builtin(name, fn)


def block_fns(ctx, alg, key=None):
    """E and D of a raw block-cipher object with the given key, as functions of the analysed program."""
    o = raw(ctx, alg, key)
    ctx.roots = list(getattr(ctx, 'roots', ())) + [o]
    mk = lambda m: native(lambda b: ctx.by(ctx.el(ctx.call(o, m, ctx.arr(ctx.el(b))))), m)
    return mk('encrypt'), mk('decrypt')


def hash_fn(ctx, name):
    def h(m):
        o = hash_(ctx, name)
        ctx.call(o, 'update', ctx.arr(ctx.el(m)))
        return ctx.by(ctx.el(ctx.call(o, 'digest')))
    return native(h, name)


def ref(ctx, sp, fn, *args):
    return ctx.it.call(spec(ctx, sp)[fn], list(args), {})


def constant_hash(ctx, obj=None):
    """Replace the methods of the hash class by their contract (digest is one fixed function of everything absorbed
    since the last reset), interpreted over constants: used for runs too long to keep as terms."""
    import hashlib
    it = ctx.it
    cls = it.payload(hash_(ctx, 'streebog512') if obj is None else obj)[0]

    def conc(v):
        r = ctx.el(v)
        if any(not isinstance(x, int) for x in r):
            raise Unsupported('unknown data in a constant run')
        return bytes(r)

    def conc_hash(data, n):
        return ctx.arr(hashlib.blake2b(conc(data), digest_size=n).digest())
    ns = it.load_source('gsa_stub_hash', '''
def update(self, data):
    self.gsa_absorbed = getattr(self, 'gsa_absorbed', b'') + bytes(data)


def digest(self):
    return H(getattr(self, 'gsa_absorbed', b''), self.digest_size)


def hexdigest(self):
    return self.digest().hex()


def reset(self):
    self.gsa_absorbed = b''
''', 'contract of the hash').ns
    ns['H'] = native(conc_hash, 'H')
    for n in ('update', 'digest', 'hexdigest', 'reset'):
        if n not in cls.ns:
            raise Missing('the hash class has no %s' % n)
        cls.ns[n] = ns[n]


# ------------------------------------------------------------ thresholds
def _fold(n, env):
    import ast
    if isinstance(n, ast.Constant) and type(n.value) is int:
        return n.value
    if isinstance(n, ast.Name):
        return env.get(n.id)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
        v = _fold(n.operand, env)
        return None if v is None else -v
    if not isinstance(n, ast.BinOp):
        return None
    a, b = _fold(n.left, env), _fold(n.right, env)
    if a is None or b is None:
        return None
    op = type(n.op).__name__
    if op in ('Pow', 'LShift') and not (0 <= b <= 4096 and abs(a) <= 1 << 64):
        return None
    if op in ('FloorDiv', 'Mod') and b == 0:
        return None
    f = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Pow': lambda: a ** b,
         'LShift': lambda: a << b, 'FloorDiv': lambda: a // b, 'Mod': lambda: a % b}.get(op)
    return f() if f else None


_THRESHOLDS = {}


def thresholds(ctx, parts, lo, hi):
    """Integers between lo and hi that the functions of the given modules mention.

    A length or a count at which the code could change its behaviour appears in
    the code; the obligations over enumerated lengths include those values."""
    import ast
    root = os.path.join(ctx.it.root, 'gostcrypto')
    key = (root, tuple(parts))
    if key not in _THRESHOLDS:
        out = set()
        for d, _, files in sorted(os.walk(root)):
            for f in sorted(files):
                p = os.path.join(d, f)
                if not f.endswith('.py') or not any(x in p[len(root):] for x in parts):
                    continue
                try:
                    with open(p, encoding='utf-8') as h:
                        tree = ast.parse(h.read())
                except (OSError, SyntaxError, ValueError):
                    continue
                env = {}
                for s in tree.body:
                    t = s.targets[0] if isinstance(s, ast.Assign) else s.target if isinstance(s, ast.AnnAssign) else None
                    if isinstance(t, ast.Name) and s.value is not None:
                        v = _fold(s.value, env)
                        if v is not None:
                            env[t.id] = v
                for fn in ast.walk(tree):
                    if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                        for n in ast.walk(fn):
                            if isinstance(n, (ast.BinOp, ast.Constant, ast.Name)):
                                v = _fold(n, env)
                                if v is not None:
                                    out.add(v)
        _THRESHOLDS[key] = sorted(out)
    return [v for v in _THRESHOLDS[key] if lo <= v <= hi]


def around(values, bs, hi):
    """Lengths in bytes next to the given values, taken as bytes and as blocks."""
    out = set()
    for v in values:
        out.update((v - 1, v, v + 1, v + (-v) % bs))
        out.update((v * bs, v * bs + 1))
    return sorted(x for x in out if 0 <= x <= hi)

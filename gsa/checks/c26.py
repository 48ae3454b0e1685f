"""Every public operation is run by the interpreter over constants at the edges of
its arguments (sizes below, at and above each limit, all-zero and all-one contents,
counters about to wrap, scalars, digests and signatures at 0, 1, q-1, q and the
largest value, supplied and drawn nonces that must be refused, curves with
degenerate or composite parameters).  At the head of every repetition whose number
of turns is not fixed beforehand the complete state (frames, reachable heap,
modules, draws from the random source) is compared with an earlier one of the same
activation: an equal state is a repetition that never ends, without any bound on
the number of turns.  A loop of more than 2**12 turns on such small arguments, and
an escaping RecursionError, are reported as well.  A retry must end with the first
usable draw: draws after it do not count as progress.  The same operations are run
with unknown contents.  Every loop and recursion of the package is listed with the
argument why it ends."""
import ast

from ..common import *
from .. import core
from .. import group as G
from ..interp import Hang
from . import sigmodel as SG
from . import arguments as A
from .c25 import constant_sig

TURNS = 1 << 12
ASSUMPTIONS = ['arguments are enumerated at their edges; a repetition that depends on one particular inner value is not reached',
               'finite but long work (large requested sizes, iteration counts, moduli) is not a violation']


def ends(ctx, what, f, reset=True):
    """Run f; a repetition without end is a violation.  True if it returned."""
    it = ctx.it
    start = it.snapshot()
    it.loop_limit = TURNS
    ctx.items += 1
    try:
        f()
        return True
    except Hang as h:
        ctx.fail('%s: %s' % (what, h.why), h.site)
        raise core.Enough()
    except TargetExc as e:
        if ctx.error_of(e)[0] == 'RecursionError':
            ctx.fail('%s: recursion without bound' % what, e.site)
    except Unsupported as e:
        ctx.note('%s: %s' % (what, e))
    finally:
        if reset:
            it.restore(start)
    return False


def const(ctx, byte):
    return lambda name, n: ctx.arr(bytes([byte]) * n)


def table(fam, byte):
    """All calls of the table of arguments, with constant contents and the contract of the hash."""
    def run(ctx):
        ctx.it.summ = None
        constant_hash(ctx)

        def body():
            calls = dict(A.families(ctx))[fam](ctx, const(ctx, byte), ctx.tier != 'quick')
            ctx.it.rand_script = (0, lambda n: bytes([byte or 1]) * n)
            for _, what, call, _ in calls:
                ends(ctx, '%s (bytes %#x)' % (what, byte), call)
            ctx.sample.append('%s: %d calls' % (fam, len(calls)))
        ctx.scenario(body, fam)
    return run


def hashes(ctx):
    ctx.it.summ = None

    def body():
        for h in HASHES:
            for byte in (0, 255):
                b = const(ctx, byte)

                def f():
                    o = hash_(ctx, h, data=b('d', 64))
                    for n in (0, 1, 63, 0, 65):
                        ctx.call(o, 'update', b('d', n))
                    ctx.call(o, 'digest')
                    ctx.call(ctx.call(o, 'copy'), 'hexdigest')
                    ctx.call(o, 'reset')
                    ctx.call(o, 'hexdigest')
                ends(ctx, '%s of bytes %#x' % (h, byte), f)
            for last in (0, 63):
                def f(last=last):
                    one = [0] * 64
                    one[last] = 1
                    o = hash_(ctx, h, data=ctx.arr([255] * 64))
                    ctx.call(o, 'update', ctx.arr(one))
                    ctx.call(o, 'update', ctx.arr([255] * 64))
                    ctx.call(o, 'digest')
                ends(ctx, '%s with a checksum that overflows' % h, f)
    ctx.scenario(body, 'hash')


def keyed(ctx):
    it = ctx.it
    it.summ = None
    constant_hash(ctx)
    P = lambda pw, salt, c: ctx.fn('gostpbkdf', 'new', ctx.arr(bytes(pw)), salt=ctx.arr(bytes(salt)), counter=c)
    R = lambda n, seed, size: ctx.fn('gostrandom', 'new', n, rand_k=ctx.arr(seed), size_s=size)

    def body():
        for c in (-(1 << 70), -5, -1, 0, 1, 2, 3):
            for n in (-(1 << 70), -65, -64, -1, 0, 1, 63, 64, 65, 128, 129, 4096):
                for m in ('derive', 'hexderive'):
                    ends(ctx, 'gostpbkdf.new(counter=%d).%s(%d)' % (c, m, n), lambda: ctx.call(P(5, 8, c), m, n))
        for size in (48, 40, 32):
            for n in (-(1 << 70), -129, -65, -64, -63, -1, 0, 1, 63, 64, 65, 128, 129, 4097):
                for seed in (bytes(size), b'\xff' * size, bytes(size - 1) + b'\1', b'\1' + bytes(size - 1)):
                    def f():
                        o = R(n, seed, size)
                        for i in range(3):
                            ctx.call(o, 'random')
                        ctx.call(o, 'reset', ctx.arr(b'\xff' * size))
                        ctx.call(o, 'random')
                    ends(ctx, 'gostrandom.new(%d, seed %s.., %d).random()' % (n, seed[:2].hex(), size), f)
            for n in (1, 64, 65, 129):
                def g():
                    # the counter about to wrap
                    o = R(n, b'\xff' * size, size)
                    ctx.call(o, 'random')
                    fill(ctx, o, size)
                    ctx.call(o, 'random')
                ends(ctx, 'gostrandom of %d bytes with its counter at the limit' % n, g)
        for h in HMACS:
            for k in (0, 1, 63, 64, 65, 129):
                for byte in (0, 255):
                    def f():
                        o = A.H(ctx, h, ctx.arr(bytes([byte]) * k))
                        ctx.call(o, 'digest')
                        for n in (0, 1, 64, 65):
                            ctx.call(o, 'update', ctx.arr(bytes([byte]) * n))
                        ctx.call(ctx.call(o, 'copy'), 'hexdigest')
                        ctx.call(o, 'reset')
                        ctx.call(o, 'clear')
                    ends(ctx, '%s with a key of %d bytes %#x' % (h, k, byte), f)
    ctx.scenario(body, 'keyed')


def fill(ctx, o, size):
    """Set every byte of the state after the seed."""
    it = ctx.it
    for k, v in it.payload(o)[1].items():
        if isinstance(v, Ref) and it.kind(v) == 'bytearray' and len(it.payload(v)) == 63:
            p = it.payload(v)
            it.heap[v.addr] = ('bytearray', tuple(p[:size]) + (255,) * (63 - size))


def cipher(alg, m, byte):
    bs = BS[alg]

    def run(ctx):
        ctx.it.summ = None

        def body():
            it = ctx.it
            b = const(ctx, byte)
            kinds = []
            if m in ('ECB', 'CBC'):
                kinds += [dict(pad_mode=pad(ctx, i)) for i in (1, 2)]
            if m in ('CBC', 'CFB', 'OFB'):
                kinds = [dict(k, init_vect=b('iv', bs * n)) for k in kinds or [{}] for n in (1, 3)]
            if m == 'CTR':
                kinds = [dict(init_vect=b('iv', bs // 2)), {}]
            box = []
            if m == 'MAC':
                if ends(ctx, 'MAC %s' % alg, lambda: box.append(new(ctx, alg, 'MAC', b('key', 32))), False):
                    start = it.snapshot()
                    for ns in ((), (0,), (1,), (bs,), (bs, 1), (bs - 1, 1, bs), (2 * bs + 1,)):
                        it.restore(start)

                        def f():
                            for n in ns:
                                ctx.call(box[0], 'update', b('d', n))
                            for s in (-1, 0, 1, bs, bs + 1):
                                ends(ctx, 'MAC %s of %s bytes %#x' % (alg, ns, byte), lambda: ctx.call(box[0], 'digest', s))
                            ctx.call(box[0], 'hexdigest', bs)
                        ends(ctx, 'MAC %s of %s bytes %#x' % (alg, ns, byte), f)
                return
            for kw in kinds[:1 if alg == 'kuznechik' and ctx.tier == 'quick' else 9]:
                del box[:]
                if not ends(ctx, '%s %s' % (m, alg), lambda: box.append(new(ctx, alg, m, b('key', 32), **kw)), False):
                    continue
                o = box[0]
                if m == 'CTR':
                    counter(ctx, o, bs)
                for w in ('encrypt', 'decrypt'):
                    for n in (0, 1, bs - 1, bs, bs + 1, 2 * bs, 3 * bs + 1):
                        ends(ctx, '%s %s of %d bytes %#x' % (m, w, n, byte), lambda: ctx.call(o, w, b('d', n)))

                def f():
                    for n in (bs, 2 * bs, 1, 0):
                        ctx.call(o, 'encrypt', b('d', n))
                        ctx.call(o, 'decrypt', b('d', n))
                    ctx.call(o, 'clear')
                ends(ctx, '%s %s' % (m, alg), f)
        ctx.scenario(body, m)
    return run


def counter(ctx, o, bs):
    """The counter just before it wraps, where the object keeps it as bytes."""
    it = ctx.it
    reg = it.canon(ctx.by(ctx.el(ctx.attr(o, 'counter'))))
    for k, v in it.payload(o)[1].items():
        if isinstance(v, Ref) and it.kind(v) == 'bytearray' and it.canon(ctx.by(ctx.el(v))) == reg:
            it.heap[v.addr] = ('bytearray', (255,) * bs)


def enc(n, size):
    return n.to_bytes(size, 'big')


def signing(name):
    def run(ctx):
        ctx.it.summ = None

        def body():
            it = ctx.it
            o = SG.make(ctx, name)
            c = SG.canonical(ctx, SG.table(ctx, name))
            size = SG.size_of(ctx, SG.table(ctx, name))
            q, p = c['q'], c['p']
            cu = G.Curve(p, c['a'])
            P = (c['x'], c['y'])
            top = (1 << 8 * size) - 1
            by = lambda n: ctx.arr(enc(n, size))
            edge = [x for x in (0, 1, 2, 3, q, q + 1, q + 2, 2 * q, 2 * q + 1, 3 * q) if x <= top]
            for d in edge:
                ends(ctx, '%s: public_key_generate(%s)' % (name, label(d, q)), lambda: ctx.call(o, 'public_key_generate', by(d)))
            small = [0, 1, 2, 3, 5]
            for d in (0, 1, 5, q, top):
                for e in (0, q, 7, top):
                    for k in small + [x for x in (q, q + 1, top) if x <= top]:
                        if d == 5 or e == 7 or k == 3:
                            ends(ctx, '%s: sign with private key %s, digest %s, random value %s' % (
                                name, label(d, q), label(e, q), label(k, q)),
                                lambda: ctx.call(o, 'sign', by(d), by(e), rand_k=by(k)))
            # r*d + k*e = 0
            zs = []
            for e in (5, 0):
                for k in (1, 3):
                    r = cu.mul(k, P)[0] % q
                    d = -k * (e or 1) * pow(r, -1, q) % q if r else 0
                    if d:
                        zs.append((d, e, k))
                        ends(ctx, '%s: sign where the supplied random value gives s = 0' % name,
                             lambda: ctx.call(o, 'sign', by(d), by(e), rand_k=by(k)))
            # drawn values: unusable ones first, then the same usable one for ever
            for d, e, bad in [(9, 7, [0]), (9, 7, [x for x in (q, top, 0, q) if x <= top]), (9, 7, [])] + \
                    [(d, e, [k, 0, k]) for d, e, k in zs]:
                good = next(k for k in (2, 4, 6, 8) if constant_sig(c, size, d, e, k))
                it.rand_script = (it.rand_count, [enc(k, size) for k in bad] + [enc(good, size)] * 2000)
                it.rand_ignore = it.rand_count + len(bad) + 1
                try:
                    ends(ctx, '%s: sign with drawn random values %s' % (name, [label(k, q) for k in bad] + [good]),
                         lambda: ctx.call(o, 'sign', by(d), by(e)))
                finally:
                    it.rand_script = it.rand_ignore = None
            Q = cu.mul(2, P)
            neg = lambda K: (K[0], p - K[1])
            keys = [('2P', Q), ('P', P), ('-P', neg(P)), ('-2P', neg(Q)), ('(0, 0)', (0, 0)), ('(p, p)', (p, p)), ('(1, 1)', (1, 1))]
            keys += [('a point of order 2', (x, 0)) for x in roots(c)]
            bad = [x for x in (0, q, q + 1, top) if x <= top]

            def verify(kn, K, r, s, dig):
                ends(ctx, '%s: verify with public key %s, r %s, s %s, digest %s' % (
                    name, kn, label(r, q), label(s, q), label(int.from_bytes(dig, 'big'), q)), lambda: ctx.call(
                        o, 'verify', ctx.arr(enc(K[0], size) + enc(K[1], size)), ctx.arr(dig), ctx.arr(enc(r, size) + enc(s, size))))
            for kn, K in keys:
                if max(K) > top:
                    continue
                for x in bad:
                    for dig in (enc(7, size), bytes(size)):
                        verify(kn, K, x, 5, dig)
                        verify(kn, K, 5, x, dig)
                for i, j in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (4, 2)):
                    # r and s for which the multipliers are i and j
                    for e in (1, 7):
                        r, s = -j * e % q, i * e % q
                        verify(kn, K, r, s, enc(e, size))
                        if e == 1:
                            verify(kn, K, r, s, bytes(size))
                            verify(kn, K, r, s, enc(q, size))
            ctx.sample.append('%s: %d calls' % (name, ctx.items))
        ctx.scenario(body, name)
    return run


def roots(c):
    """x coordinates of points of order two, when easily found: the cubic has one with a square root for Edwards curves."""
    p = c['p']
    if 'e' in c and 'd' in c and c.get('u'):
        t = (c['e'] + c['d']) * pow(6, -1, p) % p
        x = -2 * t % p
        for r in (x, 2 * t % p):
            if (r ** 3 + c['a'] * r + c['b']) % p == 0:
                return [r]
    return []


def label(n, q):
    if n < 1000:
        return str(n)
    for k, nm in ((q - 1, 'q-1'), (q, 'q'), (q + 1, 'q+1'), (2 * q, '2q'), (3 * q, '3q')):
        if n == k:
            return nm
    return 'of %d bits' % n.bit_length()


def composite(c, size):
    """A subgroup order that is no prime, with a digest and signature for which the first multiplier vanishes."""
    q0 = 1 << (8 * size - 1)
    for i in range(1, 400):
        for f in (3, 5):
            K = q0 // f + 1000 + i
            K |= 1
            q = f * K
            if K % f == 0:
                continue
            t = pow(f, -1, K)
            for e in (f * t % q, f * (K - t) % q):
                yield f, K, q, e


def degenerate(name):
    def run(ctx):
        ctx.it.summ = None

        def body():
            it = ctx.it
            base = SG.canonical(ctx, SG.table(ctx, name))
            size = SG.size_of(ctx, SG.table(ctx, name))
            mode = SG.mode_of(ctx, size)
            p, q = base['p'], base['q']
            by = lambda n: ctx.arr(enc(n, size))
            N = lambda d: ctx.fn('gostsignature', 'new', mode, it.new_dict(d))
            orig = dict(it.payload(SG.table(ctx, name)))
            for d, kind in ((base, 'canonical'), (orig, 'as shipped')):
                for k in sorted(d):
                    for v in (0, 1, -1, 2, -d[k], d[k] + 1, 2 * d[k], 1 << 2000, -(1 << 2000)):
                        ends(ctx, '%s: %s parameters with %s = %s' % (name, kind, k, label(v, q)), lambda: N(dict(d, **{k: v})))
                    ends(ctx, '%s: %s parameters without %s' % (name, kind, k), lambda: N({a: x for a, x in d.items() if a != k}))
            ends(ctx, 'no parameters', lambda: N({}))
            for v in (0, 1, -1, 2):
                ends(ctx, 'all parameters %d' % v, lambda: N({k: v for k in ('p', 'a', 'b', 'm', 'q', 'x', 'y')}))
            # a composite order is accepted; the first multiplier of the verification equation vanishes
            P = (base['x'], base['y'])
            done = 0
            for f, K, q2, e in composite(base, size):
                box = []
                start = it.snapshot()
                ends(ctx, '%s: composite order' % name, lambda: box.append(N(dict(base, q=q2))), False)
                if not box:
                    it.restore(start)
                    continue
                pub = ctx.arr(enc(P[0], size) + enc(P[1], size))
                for s in (K, q2 - K):
                    ends(ctx, '%s with the composite order %d*K: verify with s = K, digest %d*(1/%d mod K)' % (name, f, f, f), lambda: ctx.call(
                        box[0], 'verify', pub, by(e), ctx.arr(enc(5, size) + enc(s, size))))
                ends(ctx, '%s with the composite order %d*K: verify with r = s = K' % (name, f), lambda: ctx.call(
                    box[0], 'verify', pub, by(e), ctx.arr(enc(K, size) + enc(K, size))))
                for d, e2, k in ((K, f, f), (f, K, f), (K, K, f)):
                    ends(ctx, '%s with the composite order %d*K: sign' % (name, f), lambda: ctx.call(
                        box[0], 'sign', by(d), by(e2), rand_k=by(k)))
                it.restore(start)
                done += 1
                if done == 3:
                    break
            ctx.sample.append('%s: %d composite orders' % (name, done))
        ctx.scenario(body, name)
    return run


def unknown(sub):
    """The histories of a subject with unknown contents."""
    def run(ctx):
        def body():
            o = sub.make(ctx, ba(ctx))
            it = ctx.it
            start = it.snapshot()
            for seq in sub.states + sub.cont:
                it.restore(start)
                for lab in seq:
                    try:
                        sub.run(ctx, o, lab, ba(ctx))
                    except Hang as h:
                        return (h, list(it.factlist))
            return None
        for kind, val, st in ctx.paths(body):
            ctx.items += 1
            if kind == 'ok' and val is not None:
                ctx.fail('%s: %s' % (sub.name, val[0].why), val[0].site)
            elif kind == 'exc' and ctx.error_of(val)[0] == 'RecursionError':
                ctx.fail('%s: recursion without bound' % sub.name, val.site)
    return run


# ------------------------------------------------------------ inventory
def inventory(ctx):
    it = ctx.it
    out = []
    for m in list(it.modules.values()):
        if not isinstance(m, ModuleVal) or not m.path or not m.path.startswith(it.root):
            continue
        with open(m.path) as fh:
            tree = ast.parse(fh.read())
        rel = m.path[len(it.root):].lstrip('/')
        for fn in ast.walk(tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for n in ast.walk(fn):
                if isinstance(n, ast.Call) and (getattr(n.func, 'id', None) == fn.name):
                    out.append('%s:%d %s: recursion; %s' % (rel, n.lineno, fn.name, recursion(n, fn)))
                elif isinstance(n, ast.For):
                    ctx.items += 1
                    out.append('%s:%d %s: for over %s; %s' % (rel, n.lineno, fn.name, ast.unparse(n.iter)[:60], counted(n)))
                elif isinstance(n, ast.While):
                    ctx.items += 1
                    out.append('%s:%d %s: while %s; %s' % (rel, n.lineno, fn.name, ast.unparse(n.test)[:70], ranked(n)))
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    rest = [x for x in seen if 'finite' not in x]
    ctx.sample.append('%d loops and recursions, of which %d iterate over a finite value' % (len(seen), len(seen) - len(rest)))
    ctx.sample.extend(rest[:3])
    for x in rest[3:]:
        ctx.sample.append(x)


def recursion(call, fn):
    txt = ast.unparse(call)
    if '%' in txt:
        return 'an argument decreases modulo the other (Euclid); depth checked at the edges'
    return 'checked at the edges only'


def counted(n):
    names = {x.id for x in ast.walk(n.iter) if isinstance(x, ast.Name)}
    grow = any(isinstance(x, ast.Attribute) and x.attr in ('append', 'extend', 'insert', 'appendleft') and
               isinstance(x.value, ast.Name) and x.value.id in names for b in n.body for x in ast.walk(b))
    if isinstance(n.iter, ast.Call) and getattr(n.iter.func, 'id', None) in ('range', 'enumerate', 'zip', 'reversed', 'sorted') and not grow:
        return 'finite'
    if isinstance(n.iter, (ast.Subscript, ast.Name)) and not grow:
        return 'finite'
    return 'checked at the edges' + (' (grows in its body)' if grow else '')


def ranked(n):
    names = {x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)}
    t = ast.unparse(n.test)
    for b in n.body:
        for x in ast.walk(b):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id in names:
                if isinstance(x.op, ast.Sub) and ('> 0' in t or '>= ' in t):
                    return '%s decreases and is bounded below' % x.target.id
                if isinstance(x.op, ast.RShift):
                    return '%s is shifted right; ends when it is not negative, checked at the edges' % x.target.id
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id in names:
                v = ast.unparse(x.value)
                if '>>' in v:
                    return '%s is shifted right; ends when it is not negative, checked at the edges' % x.targets[0].id
                if '- 1' in v and '> 0' in t:
                    return '%s decreases and is bounded below' % x.targets[0].id
                if 'urandom' in v or 'rand' in v:
                    return 'a fresh draw per turn'
    return 'checked at the edges'


def obligations(ctx):
    out = [('loops and recursions', inventory), ('hash', hashes), ('HMAC, key derivation, random sequence', keyed)]
    for fam in ('hash', 'hmac', 'pbkdf', 'random', 'oid'):
        for byte in ((255,) if ctx.tier == 'quick' else (0, 255)):
            out.append(('arguments of %s, bytes %#x' % (fam, byte), table(fam, byte)))
    for alg in ALGS:
        for m in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR', 'MAC'):
            for byte in (0, 255):
                out.append(('%s %s, bytes %#x' % (m, alg, byte), cipher(alg, m, byte)))
    for name in SG.tables(ctx):
        out.append((name, signing(name)))
    seen = set()
    for name in SG.tables(ctx):
        size = SG.size_of(ctx, SG.table(ctx, name))
        if size not in seen or ctx.tier != 'quick':
            out.append((name + ', altered parameters', degenerate(name)))
        seen.add(size)
    for s in subjects(ctx.tier):
        out.append(('unknown contents: ' + s.name, unknown(s)))
    return out

"""Every buffer and dictionary the caller passes in is an abstract object owned by
the caller.  For each kind of object, state and operation (including the ones
that are refused), after every call, after finalisation and after further
operations the content of each of them is shown to be the term it was before.
Signature operations are analysed over an abstract base point for unknown
arguments, and by constant propagation for boundary arguments (digest 0 modulo
q, nonces out of range, keys that are not points); helper functions of the
package are analysed the same way."""
from .callers import *
from .. import group as G
from . import c25

WARM = ('magma', 'kuznechik', 'hash')
ASSUMPTIONS = ['arguments that are bytes objects cannot be modified and are not tracked',
               'operation sequences and lengths are enumerated; contents are arbitrary']


def attempt(ctx, f):
    try:
        f()
    except TargetExc:
        pass


def life(s, prefix):
    def run(ctx):
        def body():
            it = ctx.it
            b = Args(ctx)
            o = s.make(ctx, b)
            ctx.roots = [o]
            nm = '%s, creation' % s.name
            b.changed(nm)
            for lab in prefix:
                s.run(ctx, o, lab, b)
                b.changed('%s, %s' % (s.name, lab))
            start, m = it.snapshot(), b.mark()
            for lab in list(s.ops) + ['finalisation', 'attributes']:
                it.restore(start)
                b.back(m)
                what = '%s after %s: %s' % (s.name, ','.join(prefix) or 'creation', lab)
                if lab == 'finalisation':
                    finalise(ctx, o)
                elif lab == 'attributes':
                    read_attrs(ctx, o)
                else:
                    s.run(ctx, o, lab, b)
                b.changed(what)
                if lab in s.ops:
                    attempt(ctx, lambda: s.run(ctx, o, lab, b))
                    b.changed(what + ' twice')
                for fin in ('reset', 'clear'):
                    if fin in s.ops:
                        attempt(ctx, lambda: s.run(ctx, o, fin, b))
                        b.changed(what + ', ' + fin)
                finalise(ctx, o)
                b.changed(what + ', finalisation')
            ctx.sample.append('%s after %s: %d operations' % (s.name, prefix, len(s.ops) + 2))
        ctx.scenario(body, s.name, allow=s.allow)
    return run


def constructors(name, calls, part=slice(None)):
    """Constructor calls and one-shot calls, accepted or refused; b: Args."""
    def run(ctx):
        def body():
            it = ctx.it
            start = it.snapshot()
            for what, f in calls(ctx)[part]:
                it.restore(start)
                b = Args(ctx)
                it.last_object = None
                m = it.next_addr
                o = None
                try:
                    o = f(b)
                except TargetExc:
                    o = it.last_object
                b.changed(what)
                if isinstance(o, Ref) and o.addr in it.heap and it.kind(o) == 'obj':
                    attempt(ctx, lambda: ctx.call(o, 'clear'))
                    b.changed(what + ', then clear')
                    attempt(ctx, lambda: finalise(ctx, o))
                    b.changed(what + ', then finalisation')
                ctx.sample.append(what)
        ctx.scenario(body, name, allow=('seed value is zero',))
    return run


def cipher_calls(alg):
    def calls(ctx):
        bs = BS[alg]
        out = []
        for m in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR', 'MAC'):
            ivs = [None] if m in ('ECB', 'MAC') else [bs // 2, bs, 2 * bs, 3 * bs, bs + 1, 0]
            for iv in ivs:
                for kl in (32, 31, 33):
                    for dl in ((None, 0, 3, bs, 2 * bs + 3) if m == 'MAC' else (None,)):
                        for pm in ((None, 1, 2) if m in ('ECB', 'CBC') and kl == 32 else (None,)):
                            def f(b, m=m, iv=iv, kl=kl, dl=dl, pm=pm):
                                kw = {}
                                if iv is not None:
                                    kw['init_vect'] = b('iv', iv)
                                if dl is not None:
                                    kw['data'] = b('data', dl)
                                if pm:
                                    kw['pad_mode'] = pad(ctx, pm)
                                o = new(ctx, alg, m, b('key', kl), **kw)
                                if m != 'MAC':
                                    for n in (0, 3, bs, 2 * bs + 3):
                                        b.keep('result', ctx.call(o, 'encrypt', b('d', n)))
                                        b.keep('result', ctx.call(o, 'decrypt', b('e', n)))
                                else:
                                    b.keep('result', ctx.call(o, 'digest', bs))
                                    ctx.call(o, 'update', b('d', 5))
                                    b.keep('result', ctx.call(o, 'digest', bs))
                                return o
                            out.append(('%s %s, key of %d bytes, iv %s, data %s, padding %s' % (m, alg, kl, iv, dl, pm), f))
        for kl in (32, 31):
            def g(b, kl=kl):
                o = raw(ctx, alg, b('key', kl))
                for n in (bs, bs - 1, bs + 1, 0, bs):
                    for w in ('encrypt', 'decrypt'):
                        attempt(ctx, lambda: b.keep('result', ctx.call(o, w, b('d', n))))
                return o
            out.append(('raw %s, key of %d bytes' % (alg, kl), g))
        return out
    return calls


def keyed_calls(ctx):
    out = []
    for h in HASHES:
        for n in (None, 0, 5, 64, 65, 128):
            def f(b, h=h, n=n):
                o = hash_(ctx, h, **({} if n is None else {'data': b('data', n)}))
                b.keep('result', ctx.call(o, 'digest'))
                ctx.call(o, 'update', b('more', 64))
                b.keep('result', ctx.call(o, 'digest'))
                ctx.call(o, 'reset')
                return o
            out.append(('%s with data %s' % (h, n), f))
    for h in HMACS:
        for kl in (0, 1, 32, 63, 64, 65):
            for n in (None, 0, 5, 64):
                if n and kl not in (32, 64):
                    continue

                def f(b, h=h, n=n, kl=kl):
                    o = hmac(ctx, h, b('key', kl), **({} if n is None else {'data': b('data', n)}))
                    b.keep('result', ctx.call(o, 'digest'))
                    ctx.call(o, 'update', b('more', 64))
                    ctx.call(o, 'reset')
                    ctx.call(o, 'update', b('more2', 3))
                    b.keep('result', ctx.call(o, 'digest'))
                    return o
                out.append(('%s with a key of %d bytes and data %s' % (h, kl, n), f))
    for pl in (0, 1, 12, 63, 64, 65):
        for sl in (0, 8, 32):
            for dk in (20, 64, 65, 0):
                if pl not in (12, 64) and (sl != 8 or dk != 20):
                    continue

                def f(b, pl=pl, sl=sl, dk=dk):
                    o = ctx.fn('gostpbkdf', 'new', b('password', pl), salt=b('salt', sl), counter=2)
                    attempt(ctx, lambda: b.keep('result', ctx.call(o, 'derive', dk)))
                    attempt(ctx, lambda: ctx.call(o, 'hexderive', dk))
                    return o
                out.append(('pbkdf with a password of %d and a salt of %d bytes, derive(%d)' % (pl, sl, dk), f))
    for size in (32, 40, 48):
        for sl in (size, size - 1, size + 1, 0):
            for n in (1, 64, 70):
                if n != 70 and sl != size:
                    continue

                def f(b, size=size, sl=sl, n=n):
                    o = ctx.fn('gostrandom', 'new', n, rand_k=b('seed', sl), size_s=size)
                    b.keep('result', ctx.call(o, 'random'))
                    ctx.call(o, 'reset', b('seed2', size))
                    attempt(ctx, lambda: ctx.call(o, 'reset', b('seed3', size - 1)))
                    b.keep('result', ctx.call(o, 'random'))
                    return o
                out.append(('random with a seed of %d of %d bytes, %d bytes' % (sl, size, n), f))
        def z(b, size=size):
            o = ctx.fn('gostrandom', 'new', 10, rand_k=b.const('seed', bytes(size)), size_s=size)
            attempt(ctx, lambda: ctx.call(o, 'random'))
            return o
        out.append(('random with a zero seed of %d bytes' % size, z))
        for last in ((0xff, 0xfe, 0x01) if ctx.tier != 'quick' else (0xff,) if size != 40 else ()):
            def z2(b, size=size, last=last):
                o = ctx.fn('gostrandom', 'new', 70, rand_k=b.const('seed', bytes(size - 1) + bytes([last])), size_s=size)
                attempt(ctx, lambda: ctx.call(o, 'random'))
                attempt(ctx, lambda: ctx.call(o, 'random'))
                return o
            out.append(('random with a seed of zeros and %d' % last, z2))
    return out


def util_calls(ctx):
    out = []
    for n in (0, 1, 8, 64):
        for fn, k in (('compare', 2), ('compare_to_zero', 1), ('add_xor', 2), ('bytearray_to_int', 1), ('msb', 1),
                      ('check_value', 1)):
            if fn == 'msb' and not n:
                continue
            try:
                ctx.get('utils', fn)
            except Missing:
                continue

            def f(b, fn=fn, k=k, n=n):
                a = [b('a%d' % i, n) for i in range(k)] + ([8] if fn == 'check_value' else [])
                r = ctx.fn('utils', fn, *a)
                return r
            out.append(('utils.%s(%d bytes)' % (fn, n), f))
    return out


def signing(name):
    """Unknown arguments over an abstract base point."""
    def run(ctx):
        ctx.it.LOOP_BOUND = 1
        res = [0]

        def body():
            o, g, c, size = c25.setup(ctx, name)
            b = Args(ctx)
            args = b('private_key', size), b('digest', size)
            try:
                b.keep('signature', ctx.call(o, 'sign', *args, rand_k=b('rand_k', size)))
            except TargetExc:
                pass
            b.changed('%s: sign' % name)
            attempt(ctx, lambda: finalise(ctx, o))
            b.changed('%s: finalisation after sign' % name)
            res[0] += 1

        def body2():
            o, g, c, size = c25.setup(ctx, name)
            b = Args(ctx)
            attempt(ctx, lambda: b.keep('public key', ctx.call(o, 'public_key_generate', b('private_key', size))))
            b.changed('%s: public_key_generate' % name)
            res[0] += 1
        for f in (body, body2):
            for kind, val, st in ctx.paths(f):
                if kind == 'exc':
                    ctx.note('%s: %s' % (name, val))
        ctx.sample.append('%s: %d paths' % (name, res[0]))
    return run


def enc(n, size):
    return (n % (1 << 8 * size)).to_bytes(size, 'big')


def particular(name):
    """Boundary arguments as constants."""
    def run(ctx):
        it = ctx.it

        def body():
            cur = SG.table(ctx, name)
            b = Args(ctx)
            mine = b.dict('curve', dict(it.payload(cur)))
            o = ctx.fn('gostsignature', 'new', SG.mode_of(ctx, SG.size_of(ctx, cur)), mine)
            b.changed('%s: creation' % name)
            c = SG.canonical(ctx, cur)
            size = SG.size_of(ctx, cur)
            q = c['q']
            cu = G.Curve(c['p'], c['a'])
            Q = cu.mul(5, (c['x'], c['y']))
            good = enc(Q[0], size) + enc(Q[1], size)
            start, m = it.snapshot(), b.mark()
            n = 0

            def done(what):
                nonlocal n
                n += 1
                b.changed('%s: %s' % (name, what))
                attempt(ctx, lambda: finalise(ctx, o))
                b.changed('%s: finalisation after %s' % (name, what))
                it.restore(start)
                b.back(m)
            top = (1 << size * 8) - 1
            for what, d, e, k in [('digest 0', 5, 0, 3), ('digest q', 5, q, 3), ('k = 0', 5, 7, 0), ('k = q', 5, 7, q),
                                  ('k = top', 5, 7, top), ('key 0', 0, 7, 3), ('key q', q, 7, 3), ('ordinary', 5, 7, 3)]:
                if max(d, e, k) > top:
                    continue
                attempt(ctx, lambda: b.keep('signature', ctx.call(
                    o, 'sign', b.const('private_key', enc(d, size)), b.const('digest', enc(e, size)),
                    rand_k=b.const('rand_k', enc(k, size)))))
                done('sign with ' + what)
            for what, dl, el, kl in [('a short key', size - 1, size, size), ('a long digest', size, size + 1, size),
                                     ('an empty nonce', size, size, 0), ('a long nonce', size, size, size + 1)]:
                it.rand_script = (it.rand_count, [enc(x, size) for x in (0, 3, 5)])
                try:
                    attempt(ctx, lambda: ctx.call(o, 'sign', b.const('private_key', enc(5, dl)), b.const('digest', enc(7, el)),
                                                  rand_k=b.const('rand_k', enc(3, kl))))
                finally:
                    it.rand_script = None
                done('sign with ' + what)
            for what, d, l in [('1', 1, size), ('0', 0, size), ('q', q, size), ('short', 1, size - 1)]:
                attempt(ctx, lambda: b.keep('public key', ctx.call(o, 'public_key_generate',
                                                                   b.const('private_key', enc(d, l)))))
                done('public_key_generate(%s)' % what)
            from .c28 import signature_for
            dig, genuine = signature_for(c, cu, Q, 2, 3, size)
            sigs = [('genuine', genuine), ('zero', bytes(2 * size)), ('all ones', b'\xff' * (2 * size)), ('short', bytes(3))]
            for sn, sg in sigs:
                for kn, pk in [('a genuine key', good), ('zero key', bytes(2 * size)), ('short key', bytes(size)),
                               ('unreduced key', b'\xff' * (2 * size))]:
                    if sn != 'genuine' and kn != 'a genuine key':
                        continue
                    for e in (dig, bytes(size)):
                        if not any(e) and sn == 'genuine' and kn == 'a genuine key' and (size == 64 or not name.endswith('B')):
                            continue    # two multiples by full-size numbers
                        attempt(ctx, lambda: ctx.call(o, 'verify', b.const('public_key', pk),
                                                      b.const('digest', e), b.const('signature', sg)))
                        done('verify with %s, signature %s%s' % (kn, sn, '' if any(e) else ', digest 0'))
            ctx.sample.append('%s: %d calls' % (name, n))
        ctx.scenario(body, name)
    return run


def curves(name):
    """Parameter dictionaries that are refused, or lack entries."""
    def run(ctx):
        it = ctx.it

        def body():
            cur = SG.table(ctx, name)
            c = dict(it.payload(cur))
            start = it.snapshot()
            size = SG.size_of(ctx, cur)
            variants = [('canonical', SG.canonical(ctx, cur)), ('as shipped', c)]
            for k in list(c):
                if isinstance(c[k], int):
                    variants.append(('%s + 1' % k, dict(c, **{k: c[k] + 1})))
                    variants.append(('%s = 0' % k, dict(c, **{k: 0})))
                    variants.append(('without %s' % k, {x: y for x, y in c.items() if x != k}))
                    variants.append(('negative %s' % k, dict(c, **{k: c[k] - c['p']})))
                    variants.append(('large %s' % k, dict(c, **{k: c[k] + c['p']})))
            for what, d in variants:
                for mode_size in (size, 96 - size):
                    it.restore(start)
                    b = Args(ctx)
                    o = None
                    try:
                        o = ctx.fn('gostsignature', 'new', SG.mode_of(ctx, mode_size), b.dict('curve', d))
                    except TargetExc:
                        pass
                    b.changed('%s (%s), mode of %d bytes' % (name, what, mode_size))
                    if o is not None:
                        attempt(ctx, lambda: finalise(ctx, o))
                        b.changed('%s (%s): finalisation' % (name, what))
            ctx.sample.append('%s: %d dictionaries' % (name, len(variants)))
        ctx.scenario(body, name)
    return run


def obligations(ctx):
    out = []
    for s in subjects(ctx.tier):
        if s.name == 'oid':
            continue
        for p in s.states:
            if ctx.tier == 'quick' and len(p) > 1 and not s.name.startswith(('hash', 'mac')):
                continue
            if s.name == 'pbkdf' and p:
                continue
            out.append(('%s after %s' % (s.name, ','.join(p) or 'creation'), life(s, p)))
    for nm, calls, step in [(a, cipher_calls(a), 40) for a in ALGS] + [('keyed functions', keyed_calls, 12),
                                                                      ('helper functions', util_calls, 99)]:
        n = len(calls(ctx))
        for i in range(0, n, step):
            out.append(('arguments of %s, calls %d to %d' % (nm, i + 1, min(n, i + step)),
                        constructors(nm, calls, slice(i, i + step))))
    names = list(SG.tables(ctx))
    for n in names:
        out.append(('%s, unknown arguments' % n, signing(n)))
        out.append(('%s, particular arguments' % n, particular(n)))
        out.append(('%s, parameter dictionaries' % n, curves(n)))
    return out

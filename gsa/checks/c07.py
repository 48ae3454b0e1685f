"""Dependences of everything reachable from an object (attributes, nested objects,
class attributes, module data, default arguments) after clear(), after
finalisation, and after both.  For each kind of object, key length, state and
interrupted (refused) operation, no byte of it may be a term over the key,
password or seed, including through round keys, subkeys (the block cipher on
constants) and keyed hash states.  Results of the block cipher on the caller's
data or initialization vector (ciphertext, gamma, MAC chaining value) are
outputs, not key material, and are not counted.  A dependence is reported only
with two valuations that differ in the secret alone and give the stored value
different contents.  clear(), a second clear() and the finaliser raise nothing."""
from .callers import *
from .. import core
from .. import forms as F
from .. import evalform as EV
from . import c01

WARM = ('magma', 'kuznechik', 'hash')
ASSUMPTIONS = ['operation sequences are enumerated; contents are arbitrary',
               'the initialization vector is given by the caller (not the default)',
               'only objects are judged, not freed memory of temporaries']

ORDERS = (('clear',), ('finalisation',), ('clear', 'clear'), ('clear', 'finalisation'), ('finalisation', 'clear'),
          ('finalisation', 'finalisation'))
SECRET = ('key', 'pw', 'seed', 'seed2')


def secret(n):
    n = str(n)
    return n in SECRET or n.startswith('secret')


class Leaks(core.Deps):
    """Dependences on secrets, results of the block cipher on data left out."""

    def __init__(self, it, cipher):
        self.cipher = cipher
        # without a summary of the block cipher its rounds are part of the terms
        self.inline = cipher and not any(n.endswith(('.encrypt', '.decrypt')) for n in it.summ.used) if it.summ else cipher
        super().__init__(it)
        self.raw = {}

    def output(self, base):
        """A result of the cipher on data."""
        return any(secret(x) for x in base) and any(not secret(x) for x in base)

    def atom(self, i):
        r = self.memo.get(i)
        if r is None:
            r = super().atom(i)
        if self.cipher and F.KEYS[i][0] not in ('in', 'm') and self.output(r):
            return frozenset(x for x in r if not secret(x))
        return r

    def form(self, f):
        out = frozenset()
        hide = False
        for i in F.atoms_of(f):
            r = self.atom(i)
            if self.inline and F.KEYS[i][0] not in ('in', 'm') and self.output(self.memo[i]):
                hide = True
            out |= r
        if hide:
            return frozenset(x for x in out if not secret(x))
        return out


class Twin(EV.Valuation):
    """A valuation whose secrets can be changed alone."""

    def __init__(self, seed, salt, leaks):
        super().__init__(seed)
        self.salt, self.leaks = salt, leaks

    def _input(self, name, i):
        if secret(name):
            name = (name, self.salt)
        return super()._input(name, i)

    def _other(self, k, i):
        if k[0] == 'uf' and self.leaks.cipher:
            self.leaks.atom(i)
            if self.leaks.output(self.leaks.memo[i]):
                return EV.hashlib.blake2b(repr((self.seed, 'out', k)).encode()).digest()[0] & 1
        return super()._other(k, i)


def confirmed(v, it, leaks, facts):
    """Two runs that differ in the secret alone differ in this value."""
    c = it.canon(v)
    if leaks.inline:
        return True
    for s in range(12):
        a, b = Twin(s, 1, leaks), Twin(s, 2, leaks)
        if facts and not (EV.facts_hold(a, facts) and EV.facts_hold(b, facts)):
            continue
        if a.canon(c) != b.canon(c):
            return True
    return False


def roots_of(ctx, o):
    """(name, value) of everything an object reaches besides itself."""
    it = ctx.it
    out = [('the object', o)]
    for a in it.owner:
        if a in it.heap:
            out.append(('package data', Ref(a)))
    for m in it.modules.values():
        if isinstance(m, ModuleVal) and m.name.startswith('gostcrypto'):
            for k, v in m.ns.items():
                if isinstance(v, ClassVal):
                    out += [('%s.%s' % (v.name if hasattr(v, 'name') else k, n), x) for n, x in v.ns.items()]
                else:
                    out.append(('%s.%s' % (m.name, k), v))
    return out


def leaves(it, v, path, seen, out):
    """(path, leaf or byte string) reachable from v."""
    stack = [(v, path)]
    while stack:
        x, p = stack.pop()
        if isinstance(x, (StaticM, ClassM)):
            x = x.f
        if isinstance(x, Func):
            stack += [(y, '%s default' % x.qual) for y in list(getattr(x, 'defaults', None) or ()) +
                      list((getattr(x, 'kw_defaults', None) or {}).values())]
            cl = getattr(x, 'closure', None)
            for e in (cl if isinstance(cl, (list, tuple)) else [cl] if cl else []):
                if isinstance(e, dict):
                    stack += [(y, '%s closure %s' % (x.qual, k)) for k, y in e.items()]
            continue
        if isinstance(x, Ref):
            if x.addr in seen or x.addr not in it.heap:
                continue
            seen.add(x.addr)
            k, pl = it.heap[x.addr]
            if k == 'bytearray':
                out.append((p, x))
            elif k in ('list', 'set'):
                stack += [(y, '%s[%d]' % (p, i)) for i, y in enumerate(pl)]
            elif k == 'dict':
                for kk, y in pl.items():
                    stack.append((y, '%s[...]' % p))
                    if not isinstance(kk, (str, int, bytes)):
                        stack.append((kk, '%s key' % p))
            else:
                stack += [(y, '%s.%s' % (p, kk)) for kk, y in pl[1].items()]
        elif isinstance(x, tuple):
            stack += [(y, '%s[%d]' % (p, i)) for i, y in enumerate(x)]
        elif isinstance(x, Bound):
            stack += [(x.self, p)]
        elif isinstance(x, IterVal):
            stack += [(y, p) for y in x.items]
        elif isinstance(x, (int, str, bytes, type(None), float)):
            continue
        else:
            out.append((p, x))


def judge(ctx, o, cipher, what, where):
    it = ctx.it
    leaks = ctx.__dict__.get('leaks')
    if leaks is None or leaks.cipher != cipher:
        leaks = ctx.leaks = Leaks(it, cipher)
    seen, out = set(), []
    for p, v in roots_of(ctx, o):
        leaves(it, v, p, seen, out)
    for p, v in out:
        ctx.items += 1
        try:
            c = it.canon(v)
        except Exception:
            continue
        if isinstance(v, SStr):
            d = leaks.any(v.key)
        else:
            d = leaks.canon(c)
        bad = sorted(str(x) for x in d if secret(x))
        if not bad:
            continue
        if isinstance(v, SStr) or confirmed(v, it, leaks, it.facts):
            ctx.fail('%s: %s still depends on %s' % (what, p.replace('the object.', ''), ', '.join(bad)), where)
        else:
            ctx.note('not decided: %s: whether %s depends on %s' % (what, p, ', '.join(bad)))


def gone(ctx, o, cipher, what, refused=False):
    """Clear, clear again, finalise in every order."""
    it = ctx.it
    wc = ctx.where(o, 'clear')
    start = it.snapshot()
    for order in ORDERS if not refused else ORDERS[1:2]:
        it.restore(start)
        for x in order:
            try:
                if x == 'clear':
                    ctx.call(o, 'clear')
                else:
                    finalise(ctx, o)
            except TargetExc as e:
                ctx.fail('%s: %s raises %s' % (what, ', '.join(order), ctx.text(ctx.error_of(e)[1])), e.site)
                break
        else:
            judge(ctx, o, cipher, '%s: after %s' % (what, ', '.join(order)), wc or ctx.where(o, '__del__'))
    it.restore(start)


def is_cipher(name):
    return name.split()[0] in ('mac', 'raw', 'ECB', 'CBC', 'CFB', 'OFB', 'CTR')


def one(s, prefix, kind):
    def run(ctx):
        it = ctx.it

        def body():
            b = ba(ctx) if kind == 'bytearray' else bb(ctx)
            o = s.make(ctx, b)
            ctx.roots = [o]
            for lab in prefix:
                s.run(ctx, o, lab, b)
            nm = '%s after %s' % (s.name, ','.join(prefix) or 'creation')
            ci = is_cipher(s.name)
            gone(ctx, o, ci, nm)
            start = it.snapshot()
            # a refused operation, then clear
            for lab in s.ops:
                m = lab.split('(')[0]
                if m not in ('encrypt', 'decrypt', 'update', 'digest', 'derive', 'reset') or not ctx.has(o, m):
                    continue
                if lab != m and lab != [x for x in s.ops if x.split('(')[0] == m][0]:
                    continue
                it.restore(start)
                try:
                    ctx.call(o, m, 'text' if m not in ('derive', 'digest') else -1)
                except TargetExc:
                    pass
                gone(ctx, o, ci, '%s and a refused %s' % (nm, m))
            it.restore(start)
            if prefix and ctx.has(o, 'copy'):
                ctx.call(o, 'copy')
                gone(ctx, o, ci, nm + ',copy')
        ctx.scenario(body, s.name, allow=s.allow)
    return run


def keyed(ctx):
    """Further lengths, sources of the secret and refused constructions."""
    out = []
    for h in HMACS:
        for kl in (0, 1, 31, 63, 64, 65):
            for n in (None, 5, 70):
                out.append(('%s with a key of %d bytes, data %s' % (h, kl, n), False, lambda b, h=h, kl=kl, n=n: hmac(
                    ctx, h, b('key', kl), **({} if n is None else {'data': b('data', n)})), ('digest',)))
    for pl in (0, 1, 63, 64, 65):
        for salt in (True, False):
            for n in (None, 20, 70):
                out.append(('pbkdf with a password of %d bytes%s, derive(%s)' % (pl, '' if salt else ' and a random salt', n), False,
                            lambda b, pl=pl, salt=salt: ctx.fn('gostpbkdf', 'new', b('pw', pl), counter=2,
                                                              **({'salt': b('salt', 9)} if salt else {})),
                            () if n is None else ('derive', n)))
    for size in (32, 40, 48):
        for sl in (size, size - 1):
            out.append(('random with a seed of %d of %d bytes' % (sl, size), False, lambda b, size=size, sl=sl: ctx.fn(
                'gostrandom', 'new', 70, rand_k=b('seed', sl), size_s=size), ('random',)))
        out.append(('random with a drawn seed of %d bytes' % size, False, lambda b, size=size: ctx.fn(
            'gostrandom', 'new', 70, size_s=size), ('random',)))
    for a in ALGS:
        for m in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR', 'MAC'):
            for kl in (32, 31):
                for bad in ('', 'padding', 'iv', 'data'):
                    kw = {}
                    if bad == 'padding' and m in ('ECB', 'CBC'):
                        kw['pad_mode'] = 77
                    elif bad == 'iv' and m in ('CBC', 'CFB', 'OFB', 'CTR'):
                        kw['init_vect'] = 'text'
                    elif bad == 'data' and m == 'MAC':
                        kw['data'] = 'text'
                    elif bad:
                        continue
                    elif m in ('CBC', 'CFB', 'OFB', 'CTR'):
                        kw['init_vect'] = BS[a] // (2 if m == 'CTR' else 1)

                    def f(b, a=a, m=m, kl=kl, kw=kw):
                        k = {x: b('iv', y) if x == 'init_vect' and isinstance(y, int) else y for x, y in kw.items()}
                        return new(ctx, a, m, b('key', kl), **k)
                    out.append(('%s %s with a key of %d bytes%s' % (m, a, kl, bad and ', invalid ' + bad), True, f,
                                () if m == 'MAC' or not bad else ()))
        for kl in (32, 31):
            out.append(('raw %s with a key of %d bytes' % (a, kl), True, lambda b, a=a, kl=kl: raw(ctx, a, b('key', kl)), ()))
    return out


def more(part, kind):
    def run(ctx):
        it = ctx.it

        def body():
            start = it.snapshot()
            for what, ci, f, then in keyed(ctx)[part]:
                it.restore(start)
                it.last_object = None
                b = ba(ctx) if kind == 'bytearray' else bb(ctx)
                base = len(it.rand_calls)
                ok = True
                try:
                    o = f(b)
                except TargetExc:
                    o, ok = it.last_object, False
                if 'random with' in what:
                    drawn.update(x[0] for x in it.rand_calls[base:])
                if not isinstance(o, Ref) or o.addr not in it.heap or it.kind(o) != 'obj':
                    continue
                ctx.roots = [o]
                if ok and then:
                    try:
                        ctx.call(o, *then)
                    except TargetExc:
                        pass
                gone(ctx, o, ci, what + ('' if ok else ' (refused)'), not ok)
            ctx.sample.append(', '.join(x[0] for x in keyed(ctx)[part])[:200])
        drawn = set()
        global secret
        base = secret
        secret = lambda n: base(n) or n in drawn
        try:
            ctx.scenario(body, 'construction', allow=('seed value is zero',))
        finally:
            secret = base
    return run


def obligations(ctx):
    out = []
    for s in subjects(ctx.tier):
        if s.name == 'oid' or s.name.startswith('hash'):
            continue
        for p in s.states + ([['digest']] if s.name.startswith(('hmac', 'mac')) else []):
            for kind in ('bytearray', 'bytes'):
                if kind == 'bytes' and p and ctx.tier == 'quick':
                    continue
                out.append(('%s after %s, %s' % (s.name, ','.join(p) or 'creation', kind), one(s, p, kind)))
    n = len(keyed(ctx))
    for i in range(0, n, 6):
        for kind in ('bytearray', 'bytes'):
            out.append(('constructions %d to %d, %s' % (i + 1, min(n, i + 6), kind), more(slice(i, i + 6), kind)))
    return out

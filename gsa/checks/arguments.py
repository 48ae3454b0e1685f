"""Arguments of the public functions, valid and invalid, with what the documentation says about them.

Each entry is (group, description, call, expected): expected None means accepted,
otherwise (class, message) of the documented error; () means rejected or accepted,
the documentation does not say.
"""
from ..common import *
from . import sigmodel as SG

WRONG = [('None', None), ('an integer', 7), ('text', 'a' * 32), ('empty text', ''), ('a list', 'LIST'), ('a tuple', (1,) * 32),
         ('True', True), ('zero', 0), ('an empty tuple', ())]


def err(mod, msg):
    return 'GOST%sError' % mod, 'GOST%sError: %s' % (mod, msg)


def wrong(ctx, n=32):
    """(description, value) of arguments that are not byte strings."""
    for d, v in WRONG:
        if v == 'LIST':
            v = ctx.it.new_list([1] * n)
        elif v and isinstance(v, str):
            v = 'a' * n
        elif v and isinstance(v, tuple):
            v = (1,) * n
        yield d, v


def each(ctx, setup, calls, want):
    """One object, several calls, each from the same state: fails on the first that does not do what is documented."""
    def f():
        it = ctx.it
        o = setup()
        start = it.snapshot()
        last = None
        for g in calls:
            it.restore(start)
            try:
                g(o)
            except TargetExc as e:
                if want is None or ctx.error_of(e) != want:
                    raise
                last = e
                continue
            if want is not None:
                return
        if last is not None:
            raise last
    return f


def hash_args(ctx, b, big):
    out = []
    for i, nm in enumerate(('streebog128', '', 'Streebog256', 'streebog', 'streebog2560', None, 256, b'streebog256',
                            'HMAC_GOSTR3411_2012_256')):
        for data in (None, 5):
            out.append(('hash', 'new(%r, data %s)' % (nm, data), lambda nm=nm, data=data: hash_(
                ctx, nm, **({} if data is None else {'data': b('data', data)})), err('Hash', 'unsupported hash type')))
    for h in HASHES:
        for d, v in wrong(ctx):
            if v is None or v == '' or v == ():
                # nothing to absorb: not documented
                out.append(('hash', '%s with data %s' % (h, d), lambda h=h, v=v: hash_(ctx, h, data=v), err('Hash', 'invalid data value')))
            else:
                out.append(('hash', '%s with data %s' % (h, d), lambda h=h, v=v: hash_(ctx, h, data=v), err('Hash', 'invalid data value')))
            for pre in ((0, 70) if big else (70,)):
                def upd(h=h, v=v, pre=pre):
                    o = hash_(ctx, h)
                    ctx.call(o, 'update', b('data', pre))
                    ctx.call(o, 'update', v)
                out.append(('hash', '%s: update(%s) after %d bytes' % (h, d, pre), upd, err('Hash', 'invalid data value')))
        for n in list(range(0, 131)) + [191, 192, 193, 256, 300]:
            if not big and h == HASHES[0] and n % 7 and n % 64:
                continue

            def acc(h=h, n=n):
                o = hash_(ctx, h, data=b('data', n))
                ctx.call(o, 'update', b('more', 131 - n if n < 131 else 1))
                ctx.call(o, 'digest')
                ctx.call(o, 'hexdigest')
                ctx.call(ctx.call(o, 'copy'), 'reset')
            out.append(('hash', '%s with data of %d bytes' % (h, n), acc, None))
    return out


def H(ctx, nm, key, **kw):
    return ctx.fn('gosthmac', 'new', nm, key, **kw)


def forget(ctx, f):
    """Run f and drop the terms it made."""
    from .. import evalform as EV
    it = ctx.it
    start = it.snapshot()
    fm, zm, um = F.mark(), Z.mark(), len(S._KEYLIST)
    try:
        return f()
    finally:
        it.restore(start)
        it.summ and it.summ.forget(fm, zm, um)
        EV.reset()


def hmac_args(ctx, b, big):
    out = []
    for nm in ('HMAC_GOSTR3411_2012_128', '', 'streebog256', None, 512, 'hmac_gostr3411_2012_256', 'HMAC_GOSTR3411_2012'):
        out.append(('hmac', 'new(%r)' % (nm,), lambda nm=nm: H(ctx, nm, b('key', 32)), err('HMAC', 'unsupported mode')))
    for h in HMACS:
        for d, v in wrong(ctx):
            for data in (None, 5):
                out.append(('hmac', '%s, key %s' % (h, d), lambda h=h, v=v, data=data: H(
                    ctx, h, v, **({} if data is None else {'data': b('data', 5)})), err('HMAC', 'invalid key value')))
            out.append(('hmac', '%s, data %s' % (h, d), lambda h=h, v=v: H(ctx, h, b('key', 32), data=v),
                        err('HMAC', 'invalid data value')))
            def upd(h=h, v=v):
                o = H(ctx, h, b('key', 32))
                ctx.call(o, 'update', b('data', 5))
                ctx.call(o, 'update', v)
            out.append(('hmac', '%s: update(%s)' % (h, d), upd, err('HMAC', 'invalid data value')))
            def upd0(h=h, v=v):
                ctx.call(H(ctx, h, b('key', 64)), 'update', v)
            out.append(('hmac', '%s: first update(%s)' % (h, d), upd0, err('HMAC', 'invalid data value')))
        for n in (65, 66, 100, 127, 128, 129, 256):
            for data in (None, 5):
                out.append(('hmac', '%s, key of %d bytes' % (h, n), lambda h=h, n=n, data=data: H(
                    ctx, h, b('key', n), **({} if data is None else {'data': b('data', 5)})), err('HMAC', 'invalid key value')))
        for n in range(0, 65):
            for data in ((None, 0, 1, 64) if big or n in (0, 1, 31, 32, 63, 64) else (None, 1)[n % 2:][:1]):
                def acc(h=h, n=n, data=data):
                    o = H(ctx, h, b('key', n), **({} if data is None else {'data': b('data', data)}))
                    ctx.call(o, 'digest')
                    ctx.call(o, 'update', b('more', n))
                    ctx.call(o, 'hexdigest')
                    ctx.call(o, 'reset')
                    ctx.call(o, 'update', b('more', 64 - n))
                    ctx.call(o, 'digest')
                out.append(('hmac', '%s, key of %d bytes, data %s' % (h, n, data), acc, None))
    return out


def pbkdf_args(ctx, b, big):
    out = []
    P = lambda pw, **k: ctx.fn('gostpbkdf', 'new', pw, **k)
    for d, v in wrong(ctx):
        for kw in ({}, {'salt': 8}):
            out.append(('pbkdf', 'password %s' % d, lambda v=v, kw=kw: P(v, **{k: b('salt', n) for k, n in kw.items()}),
                        err('PBKDF', 'invalid password value')))
        out.append(('pbkdf', 'salt %s' % d, lambda v=v: P(b('pw', 12), salt=v), err('PBKDF', 'invalid salt value')))
        out.append(('pbkdf', 'salt %s, counter given' % d, lambda v=v: P(b('pw', 12), counter=2, salt=v), err('PBKDF', 'invalid salt value')))
    for n in (65, 66, 100, 128):
        out.append(('pbkdf', 'password of %d bytes' % n, lambda n=n: P(b('pw', n), salt=b('salt', 8)), err('PBKDF', 'invalid password value')))
    for n in range(0, 65):
        def acc(n=n):
            o = P(b('pw', n), salt=b('salt', n), counter=1)
            ctx.call(o, 'derive', n + 1)
            ctx.attr(o, 'salt')
        out.append(('pbkdf', 'password and salt of %d bytes, derive(%d)' % (n, n + 1), acc, None))
    for n in (0, 12, 64):
        def acc2(n=n):
            o = P(b('pw', n), counter=2)
            ctx.call(o, 'hexderive', 65)
        out.append(('pbkdf', 'password of %d bytes, no salt' % n, acc2, None))
    for n in (65, 100, 200):
        out.append(('pbkdf', 'salt of %d bytes' % n, lambda n=n: ctx.call(P(b('pw', 5), salt=b('salt', n), counter=1), 'derive', 129), None))
    for m in ('derive', 'hexderive'):
        for n in (0, -1, -64, -(1 << 40), (2 ** 32 - 1) * 64 + 1, 2 ** 38, 2 ** 40, 1 << 200):
            out.append(('pbkdf', '%s(%d)' % (m, n), lambda m=m, n=n: ctx.call(P(b('pw', 5), salt=b('salt', 8), counter=1), m, n),
                        err('PBKDF', 'invalid size of the derived key')))
        for n in (1, 2, 63, 64, 65, 127, 128, 129, 192):
            out.append(('pbkdf', '%s(%d)' % (m, n), lambda m=m, n=n: ctx.call(P(b('pw', 5), salt=b('salt', 8), counter=1), m, n), None))
    return out


def random_args(ctx, b, big):
    out = []
    R = lambda n, **k: ctx.fn('gostrandom', 'new', n, **k)
    bad = err('Random', 'invalid seed value')
    sizes = {s: ctx.get('gostrandom', 'SIZE_S_%d' % s) for s in (384, 320, 256)}
    for bits, size in sizes.items():
        n = bits // 8
        for d, v in wrong(ctx, n):
            out.append(('random', 'seed %s, %d bits' % (d, bits), lambda v=v, size=size: R(64, rand_k=v, size_s=size), bad))

            def res(v=v, n=n, size=size):
                ctx.call(R(64, rand_k=b('seed', n), size_s=size), 'reset', v)
            out.append(('random', 'reset with a seed %s, %d bits' % (d, bits), res, bad))
        for k in range(1, 65):
            if k == n:
                continue
            out.append(('random', 'seed of %d bytes for %d bits' % (k, bits), lambda k=k, size=size: R(10, rand_k=b('seed', k), size_s=size), bad))
            if big or k in (1, n - 1, n + 1, 32, 40, 48, 64):
                def res2(k=k, n=n, size=size):
                    ctx.call(R(64, rand_k=b('seed', n), size_s=size), 'reset', b('seed2', k))
                out.append(('random', 'reset with a seed of %d bytes for %d bits' % (k, bits), res2, bad))
        for r in list(range(0, 66)) + [127, 128, 129, 192, 200]:
            def acc(r=r, n=n, size=size):
                o = R(r, rand_k=b('seed', n), size_s=size)
                ctx.call(o, 'random')
                if big or r % 8 == 1:
                    ctx.call(o, 'reset', b('seed2', n))
                    ctx.call(o, 'random')
                    ctx.call(o, 'reset')
                    ctx.call(o, 'random')
            if big or bits == 384 or r % 16 < 2:
                out.append(('random', '%d bytes from a seed of %d bits' % (r, bits), acc, None))

        def zero(n=n, size=size):
            ctx.call(R(10, rand_k=ctx.arr(bytes(n)), size_s=size), 'random')
        out.append(('random', 'a zero seed of %d bits' % bits, zero, err('Random', 'the seed value is zero')))
        for last in (0, n - 1):
            def almost(n=n, size=size, last=last):
                s = bytearray(n)
                s[last] = 1
                ctx.call(R(70, rand_k=ctx.arr(bytes(s)), size_s=size), 'random')
            out.append(('random', 'a seed of %d bits with one bit set in byte %d' % (bits, last), almost, None))
        out.append(('random', 'a drawn seed of %d bits' % bits, lambda size=size: ctx.call(R(70, size_s=size), 'random'), None))
    return out


def cipher_args(alg):
    def args(ctx, b, big):
        out = []
        bs = BS[alg]
        N = lambda *a, **k: ctx.fn('gostcipher', 'new', *a, **k)
        modes = {m: mode(ctx, m) for m in MODE}
        g = 'cipher ' + alg
        # where another argument is examined the key is a constant
        K = lambda: b('key', 32) if big else ctx.arr(bytes(range(7, 39)))
        for v in (0, 4, 7, 8, -1, 255 + 256, 0xfe, None, 'MODE_ECB', 1 << 40):
            out.append((g, 'mode %r' % (v,), lambda v=v: N(alg, b('key', 32), v), err('Cipher', 'unsupported cipher mode')))
        for m, mv in modes.items():
            for nm in ('', 'aes', alg.upper(), alg + ' ', None, 7, alg.encode()):
                out.append((g, '%s, algorithm %r' % (m, nm), lambda mv=mv, nm=nm: N(nm, b('key', 32), mv),
                            err('Cipher', 'unsupported cipher algorithm')))
            for d, v in wrong(ctx):
                out.append((g, '%s, key %s' % (m, d), lambda mv=mv, v=v: N(alg, v, mv), err('Cipher', 'invalid key value')))
            for n in (range(0, 70) if big or m == 'ECB' else (0, 1, 16, 24, 31, 33, 40, 64)):
                if n != 32:
                    out.append((g, '%s, key of %d bytes' % (m, n), lambda mv=mv, n=n: N(alg, b('key', n), mv),
                                err('Cipher', 'invalid key value')))
        for m in ('ECB', 'CBC'):
            for v in (0, 1, 2, 3, -1, None, 'PAD_MODE_1', 0x800000ef, 0x800000f2, 0x800000f0 + (1 << 32), 0xf0):
                for iv in ((False, True) if m == 'CBC' else (False,)):
                    out.append((g, '%s, padding mode %r' % (m, v), lambda m=m, v=v, iv=iv: N(
                        alg, K(), modes[m], pad_mode=v, **({'init_vect': b('iv', bs)} if iv else {})),
                        err('Cipher', 'invalid padding mode')))
        biv = err('Cipher', 'invalid initialization vector value')
        for m in ('CBC', 'CFB', 'OFB', 'CTR'):
            for d, v in wrong(ctx, bs // 2 if m == 'CTR' else bs):
                out.append((g, '%s, initialization vector %s' % (m, d), lambda m=m, v=v: N(alg, K(), modes[m], init_vect=v), biv))
            for n in range(0, 6 * bs + 1):
                good = n == bs // 2 if m == 'CTR' else n and n % bs == 0
                if not good:
                    if big or n < 2 * bs + 2 and alg == 'magma' or n % bs in (0, 1, bs // 2, bs - 1):
                        out.append((g, '%s, initialization vector of %d bytes' % (m, n),
                                    lambda m=m, n=n: N(alg, K(), modes[m], init_vect=b('iv', n)), biv))
                    continue
                for w in ('encrypt', 'decrypt'):
                    def acc(m=m, n=n, w=w):
                        o = N(alg, K(), modes[m], init_vect=b('iv', n))
                        for k in (0, 1, bs - 1, bs, bs + 1, 3 * bs - 1):
                            ctx.call(o, w, b('data', k))
                        if m == 'CTR':
                            ctx.attr(o, 'counter')
                        else:
                            ctx.attr(o, 'iv')
                    out.append((g, '%s, initialization vector of %d bytes, %s' % (m, n, w), acc, None))
        for m in ('ECB', 'CBC', 'CFB', 'OFB', 'CTR'):
            for pm in ((1, 2, None) if m in ('ECB', 'CBC') else (None,)):
                for w in ('encrypt', 'decrypt'):
                    def acc(m=m, w=w, pm=pm):
                        o = N(alg, b('key', 32), modes[m], **({'pad_mode': pad(ctx, pm)} if pm else {}))
                        for k in range(0, 3 * bs + 2):
                            ctx.call(o, w, b('data', k))
                    out.append((g, '%s with the default initialization vector, padding %s: %s of every length to %d' % (
                        m, pm, w, 3 * bs + 1), acc, None))
                    for pre in (0, 1):
                        def setup(m=m, w=w, pm=pm, pre=pre):
                            o = N(alg, b('key', 32), modes[m], **({'pad_mode': pad(ctx, pm)} if pm else {}))
                            if pre:
                                ctx.call(o, w, b('data', bs))
                            return o
                        for d, v in wrong(ctx, bs) if big else [('each other type', None)]:
                            vs = [v] if big else [x for _, x in wrong(ctx, bs)]
                            e = err('Cipher', 'invalid %s data' % ('plaintext' if w == 'encrypt' else 'ciphertext'))
                            out.append((g, '%s: %s(%s)%s' % (m, w, d, ' after a block' * pre), each(
                                ctx, setup, [lambda o, w=w, v=v: ctx.call(o, w, v) for v in vs], e), e))
        for d, v in wrong(ctx, bs):
            out.append((g, 'MAC, data %s' % d, lambda v=v: N(alg, K(), modes['MAC'], data=v), err('Cipher', 'invalid text data')))
        for pre in (None, 0, bs + 1):
            def setup(pre=pre):
                o = N(alg, b('key', 32), modes['MAC'])
                if pre is not None:
                    ctx.call(o, 'update', b('data', pre))
                return o
            e = err('Cipher', 'invalid text data')
            out.append((g, 'MAC: update of other types after %s bytes' % pre, each(
                ctx, setup, [lambda o, v=v: ctx.call(o, 'update', v) for _, v in wrong(ctx, bs)], e), e))
        for n in range(0, 2 * bs + 2):
            for m in ('digest', 'hexdigest'):
                setup = lambda n=n: N(alg, b('key', 32), modes['MAC'], data=b('data', n))
                out.append((g, 'MAC of %d bytes, %s of every size' % (n, m), each(
                    ctx, setup, [lambda o, m=m, s=s: ctx.call(o, m, s) for s in range(1, bs + 1)], None), None))
                if n in (0, 1, bs, bs + 1):
                    e = err('Cipher', 'invalid message authentication code size')
                    out.append((g, 'MAC of %d bytes, %s of sizes out of range' % (n, m), each(
                        ctx, setup, [lambda o, m=m, s=s: ctx.call(o, m, s) for s in (0, -1, -bs, bs + 1, 2 * bs, 1 << 40, -(1 << 40))], e), e))
        return out
    return args


def signature_args(name):
    def args(ctx, b, big):
        out = []
        cur = SG.table(ctx, name)
        size = SG.size_of(ctx, cur)
        good = SG.mode_of(ctx, size)
        N = lambda m, c: ctx.fn('gostsignature', 'new', m, c)
        g = 'signature ' + name
        E = lambda m: err('Signature', m)
        modes = [SG.mode_of(ctx, s) for s in (32, 64)]
        for v in (0, 3, -1, 256, 512, None, 'MODE_256', 1 << 40, 2.5):
            if v not in modes:
                out.append((g, 'mode %r' % (v,), lambda v=v: N(v, cur), E('unsupported signature mode')))
        out.append((g, 'the mode of the other size', lambda: N(SG.mode_of(ctx, 96 - size), cur), E('invalid parameters of the elliptic curve')))
        out.append((g, 'an empty dictionary', lambda: N(good, ctx.it.new_dict({})), E('invalid parameters of the elliptic curve')))
        for n in list(range(0, 2 * size + 3)):
            if n != size:
                if big or n < 3 or abs(n - size) < 3 or n % 16 == 0:
                    out.append((g, 'sign with a private key of %d bytes' % n, lambda n=n: ctx.call(
                        N(good, cur), 'sign', b('priv', n), b('digest', size)), E('invalid private key value')))
                    out.append((g, 'sign with a digest of %d bytes' % n, lambda n=n: ctx.call(
                        N(good, cur), 'sign', b('priv', size), b('digest', n)), E('invalid digest value')))
                    out.append((g, 'sign with a digest of %d bytes and a random value' % n, lambda n=n: ctx.call(
                        N(good, cur), 'sign', b('priv', size), b('digest', n), b('k', size)), E('invalid digest value')))
                    out.append((g, 'verify with a digest of %d bytes' % n, lambda n=n: ctx.call(
                        N(good, cur), 'verify', b('pub', 2 * size), b('digest', n), b('sig', 2 * size)), E('invalid digest value')))
                    out.append((g, 'public_key_generate(%d bytes)' % n, lambda n=n: ctx.call(
                        N(good, cur), 'public_key_generate', b('priv', n)), E('invalid private key')))
        for n in range(0, 4 * size + 2):
            if n != 2 * size and (big or n < 3 or abs(n - 2 * size) < 3 or n % 16 == 0):
                out.append((g, 'verify with a public key of %d bytes' % n, lambda n=n: ctx.call(
                    N(good, cur), 'verify', b('pub', n), b('digest', size), b('sig', 2 * size)), E('invalid public key value')))
                out.append((g, 'verify with a signature of %d bytes' % n, lambda n=n: ctx.call(
                    N(good, cur), 'verify', b('pub', 2 * size), b('digest', size), b('sig', n)), E('invalid signature value')))
        for d, v in wrong(ctx, size):
            out.append((g, 'sign with a private key %s' % d, lambda v=v: ctx.call(
                N(good, cur), 'sign', v, b('digest', size)), E('invalid private key value')))
            out.append((g, 'sign with a digest %s' % d, lambda v=v: ctx.call(
                N(good, cur), 'sign', b('priv', size), v), E('invalid digest value')))
            out.append((g, 'sign with a random value %s' % d, lambda v=v: ctx.call(
                N(good, cur), 'sign', ctx.arr((1,) * size), b('digest', size), v), E('invalid random value')))
            out.append((g, 'verify with a digest %s' % d, lambda v=v: ctx.call(
                N(good, cur), 'verify', b('pub', 2 * size), v, b('sig', 2 * size)), E('invalid digest value')))
            out.append((g, 'public_key_generate(%s)' % d, lambda v=v: ctx.call(
                N(good, cur), 'public_key_generate', v), E('invalid private key')))
        for d, v in wrong(ctx, 2 * size):
            out.append((g, 'verify with a public key %s' % d, lambda v=v: ctx.call(
                N(good, cur), 'verify', v, b('digest', size), b('sig', 2 * size)), E('invalid public key value')))
            out.append((g, 'verify with a signature %s' % d, lambda v=v: ctx.call(
                N(good, cur), 'verify', b('pub', 2 * size), b('digest', size), v), E('invalid signature value')))
        return out
    return args


def oid_args(ctx, b, big):
    out = []
    O = lambda s: ctx.fn('gostoid', 'ObjectIdentifier', s)
    bad = ('GOSTOIDError', 'invalid OID value')
    for s in ('', '.', 'a', '1', '1.', '.1', '1..2', '1.2.', '1.2.x', 'x.2.3', '1.2.-3', '-1.2', '1.-2', '1.2.3.', '1,2,3', '1.2.0x10',
              '1.2.3.4.five', '2.-1', '0.1.-1', ' '):
        for a in ('digit', 'octet'):
            out.append(('oid', 'ObjectIdentifier(%r).%s' % (s, a), lambda s=s, a=a: ctx.attr(O(s), a), bad))
    for s in ('0.40', '0.100', '1.40', '1.1000.1', '1.16384'):
        out.append(('oid', 'ObjectIdentifier(%r).octet' % s, lambda s=s: ctx.attr(O(s), 'octet'), ('GOSTOIDError', 'invalid second SID value')))
    for s in ('3.1', '3.0.1', '4.39', '40.1', '128.1.1', '16384.1'):
        out.append(('oid', 'ObjectIdentifier(%r).octet' % s, lambda s=s: ctx.attr(O(s), 'octet'), ('GOSTOIDError', 'invalid first SID value')))
    for s in ('0.0', '0.39', '1.0', '1.39', '2.0', '2.39', '2.40', '2.47', '2.48', '2.999.1', '1.2.643.7.1.1.2.2', '2.16384.1.0',
              '1.2.' + '.'.join(['1'] * 130), '1.2.%d' % (1 << 130)):
        def acc(s=s):
            o = O(s)
            ctx.attr(o, 'digit'), ctx.attr(o, 'octet'), ctx.attr(o, 'name')
        out.append(('oid', 'ObjectIdentifier(%r)' % (s if len(s) < 60 else s[:50] + '...'), acc, None))
    return out


def families(ctx):
    out = [('hash', hash_args), ('hmac', hmac_args), ('pbkdf', pbkdf_args), ('random', random_args), ('oid', oid_args)]
    out += [('cipher ' + a, cipher_args(a)) for a in ALGS]
    out += [('signature ' + n, signature_args(n)) for n in SG.tables(ctx)]
    return out

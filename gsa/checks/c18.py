"""Each attribute of ObjectIdentifier is compared with X.690: the arcs are
unknown integers of every bit length up to a bound (so every base-128 digit
count and every content of each digit), in every position, for identifiers of
2 to 300 arcs (definite lengths in short and long form).  The first two arcs
are enumerated (first 0 and 1: all 40 second arcs; first 2: unknown).  All
registered names are compared with the TC26 register, a copy of which is part
of this module, and the identifier of every algorithm object with the entry
registered for its algorithm.  Malformed identifiers are refused with the
documented errors."""
from ..common import *
from .. import evalform as EV

WARM = ('spec:oid',)
ASSUMPTIONS = ['bit lengths of arcs are enumerated up to 70 (512 in the thorough tier)',
               'the register of names was copied from the documentation of the package and checked against TC26 publications '
               'as far as known']


def number(name, bits):
    """An unknown integer of exactly this many bits."""
    from ..values import mk_int
    if bits <= 0:
        return 0
    if bits == 1:
        return 1
    el = B.sym_bytes(name, (bits + 7) // 8)
    fs = [f for e in el for f in e.bits][:bits - 1]
    return mk_int(tuple(fs) + (1,))


def text(arcs):
    from ..values import bits_of
    if all(isinstance(a, int) for a in arcs):
        return '.'.join(str(a) for a in arcs)
    return SStr(('dotted', tuple(a if isinstance(a, int) else tuple(bits_of(a)) for a in arcs)))


def strof(ctx, o):
    return ctx.it.call(str, [o], {})


def digits(ctx, v):
    n = v.bit_length() if isinstance(v, int) else len(v.bits)
    return max(1, -(-n // 7))


def same(ctx, arcs, what, first=None):
    """All attributes of the identifier with these arcs."""
    it = ctx.it
    o = ctx.fn('gostoid', 'ObjectIdentifier', text(arcs))
    comb = it.int_binop('Add', 40 * arcs[0], arcs[1]) if first is None else first
    sizes = [digits(ctx, comb)] + [digits(ctx, a) for a in arcs[2:]]
    want = it.call(spec(ctx, 'oid')['der'], [it.new_list(arcs), it.new_list(sizes)], {})
    for r in range(2):
        ctx.eq(ctx.attr(o, 'octet'), want, '%s: the binary form is not the DER encoding' % what, ctx.where(o, 'octet'),
               content=True)
        ctx.eq(ctx.attr(o, 'digit'), tuple(arcs), '%s: the tuple form does not list the arcs' % what, ctx.where(o, 'digit'))
        s = strof(ctx, o)
        ctx.eq(s, text(arcs), '%s: the string form is not the text given' % what, ctx.where(o, '__str__'))
    return o


def firsts(ctx):
    def body():
        for a in (0, 1):
            for b in range(40):
                same(ctx, (a, b), '%d.%d' % (a, b))
                same(ctx, (a, b, 5), '%d.%d.5' % (a, b))
        for b in list(range(0, 60)) + [127, 128, 999, 16303, 16304]:
            same(ctx, (2, b), '2.%d' % b)
            same(ctx, (2, b, 300), '2.%d.300' % b)
    ctx.scenario(body, 'first arcs')
    ctx.sample.append('0.0 .. 0.39, 1.0 .. 1.39, 2.0 .. 2.16304')


def arc_bits(pos, total, lo, hi):
    def run(ctx):
        for n in range(lo, hi):
            def body():
                arcs = [1, 2] + [7 + i for i in range(total)]
                arcs[2 + pos] = number('arc', n)
                same(ctx, tuple(arcs), 'arc %d of %d with %d bits' % (pos + 2, total + 2, n))
            ctx.scenario(body, 'arc of %d bits' % n)
        ctx.sample.append('arc %d: every value of %d to %d bits' % (pos + 2, lo, hi - 1))
    return run


def second(lo, hi):
    """2.x with x of so many bits: x + 80 is partitioned on its own length."""
    def run(ctx):
        it = ctx.it
        for n in range(lo, hi):
            def body():
                x = number('arc', n)
                # x + 80 has n or n + 1 bits: fix it to one of them by its value
                s = it.int_binop('Add', x, 80)
                o = ctx.fn('gostoid', 'ObjectIdentifier', text((2, x, 5)))
                got = ctx.el(ctx.attr(o, 'octet'))
                if not ctx.feasible():
                    return
                k = len(got) - 3
                if k not in (digits(ctx, 1 << (n - 1)), -(-(n + 1) // 7)):
                    ctx.fail('2.x with x of %d bits: the first arc takes %d bytes' % (n, k), ctx.where(o, 'octet'))
                    return
                want = ctx.call_spec([2, x, 5], [k, 1])
                ctx.eq(ctx.by(got), want, '2.x with x of %d bits: the binary form is not the DER encoding' % n,
                       ctx.where(o, 'octet'), content=True)
                # shortest form: the leading digit is not zero
                top = it.canon(ctx.el(want)[2])
                if k > 1 and EV.separate(lambda v: v.canon(top) == 0x80, it.facts) is not None:
                    ctx.fail('2.x with x of %d bits: the first arc has a leading zero digit' % n, ctx.where(o, 'octet'))
                ctx.eq(ctx.attr(o, 'digit'), (2, x, 5), '2.x: the tuple form does not list the arcs', ctx.where(o, 'digit'))
            ctx.call_spec = lambda a, b: it.call(spec(ctx, 'oid')['der'], [it.new_list(a), it.new_list(b)], {})
            ctx.scenario(body, '2.x with x of %d bits' % n)
    return run


def lengths(ctx):
    def body():
        for n in (2, 3, 4, 10, 60, 124, 125, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 600):
            same(ctx, (1, 2) + tuple((i * 37) % 128 for i in range(n - 2)), '%d arcs of one byte' % n)
        for n in (40, 62, 63, 64, 65, 84, 85, 86, 127, 128):
            same(ctx, (1, 2) + tuple(128 + i for i in range(n - 2)), '%d arcs of two bytes' % n)
        same(ctx, (1, 2, 3 ** 3000, 4), 'an arc of 680 bytes')
        # all arcs unknown
        same(ctx, (1, 2) + tuple(number('a%d' % i, 1 + i * 3 % 31) for i in range(40)), '40 unknown arcs')
    ctx.scenario(body, 'long identifiers')
    ctx.sample.append('identifiers of up to 600 arcs')


REGISTER = {
    '1.2.643.7.1': 'id-tc26',
    '1.2.643.7.1.0': 'modules',
    '1.2.643.7.1.0.1': 'gostR3410-2012-ParamSetSyntax',
    '1.2.643.7.1.0.2': 'gostR3410-2012-PKISyntax',
    '1.2.643.7.1.0.3': 'gostR3410-2012-SignatureSyntax',
    '1.2.643.7.1.0.4': 'gostR3410-2012-EncryptionSyntax',
    '1.2.643.7.1.0.5': 'pkcs-12ruSyntax',
    '1.2.643.7.1.1': 'id-tc26-algorithms',
    '1.2.643.7.1.1.1': 'id-tc26-sign',
    '1.2.643.7.1.1.1.1': 'id-tc26-gost3410-12-256',
    '1.2.643.7.1.1.1.2': 'id-tc26-gost3410-12-512',
    '1.2.643.7.1.1.2': 'id-tc26-digest',
    '1.2.643.7.1.1.2.2': 'id-tc26-gost3411-12-256',
    '1.2.643.7.1.1.2.3': 'id-tc26-gost3411-12-512',
    '1.2.643.7.1.1.3': 'id-tc26-signwithdigest',
    '1.2.643.7.1.1.3.2': 'id-tc26-signwithdigest-gost3410-12-256',
    '1.2.643.7.1.1.3.3': 'id-tc26-signwithdigest-gost3410-12-512',
    '1.2.643.7.1.1.4': 'id-tc26-mac',
    '1.2.643.7.1.1.4.1': 'id-tc26-hmac-gost-3411-12-256',
    '1.2.643.7.1.1.4.2': 'id-tc26-hmac-gost-3411-12-512',
    '1.2.643.7.1.1.5': 'id-tc26-cipher',
    '1.2.643.7.1.1.5.1': 'id-tc26-cipher-gostr3412-2015-magma',
    '1.2.643.7.1.1.5.1.1': 'id-tc26-cipher-gostr3412-2015-magma-ctracpkm',
    '1.2.643.7.1.1.5.1.2': 'id-tc26-cipher-gostr3412-2015-magma-ctracpkm-omac',
    '1.2.643.7.1.1.5.2': 'id-tc26-cipher-gostr3412-2015-kuznyechik',
    '1.2.643.7.1.1.5.2.1': 'id-tc26-cipher-gostr3412-2015-kuznyechik-ctracpkm',
    '1.2.643.7.1.1.5.2.2': 'id-tc26-cipher-gostr3412-2015-kuznyechik-ctracpkm-omac',
    '1.2.643.7.1.1.6': 'id-tc26-agreement',
    '1.2.643.7.1.1.6.1': 'id-tc26-agreement-gost-3410-12-256',
    '1.2.643.7.1.1.6.2': 'id-tc26-agreement-gost-3410-12-512',
    '1.2.643.7.1.1.7': 'id-tc26-wrap',
    '1.2.643.7.1.1.7.1': 'id-tc26-wrap-gostr3412-2015-magma',
    '1.2.643.7.1.1.7.1.1': 'id-tc26-wrap-gostr3412-2015-magma-kexp15',
    '1.2.643.7.1.1.7.2': 'id-tc26-wrap-gostr3412-2015-kuznyechik',
    '1.2.643.7.1.1.7.2.1': 'id-tc26-wrap-gostr3412-2015-kuznyechik-kexp15',
    '1.2.643.7.1.2': 'id-tc26-constants',
    '1.2.643.7.1.2.1': 'id-tc26-sign-constants',
    '1.2.643.7.1.2.1.1': 'id-tc26-gost-3410-12-256-constants',
    '1.2.643.7.1.2.1.1.1': 'id-tc26-gost-3410-12-256-paramSetA',
    '1.2.643.7.1.2.1.1.2': 'id-tc26-gost-3410-12-256-paramSetB',
    '1.2.643.7.1.2.1.1.3': 'id-tc26-gost-3410-12-256-paramSetC',
    '1.2.643.7.1.2.1.1.4': 'id-tc26-gost-3410-12-256-paramSetD',
    '1.2.643.7.1.2.1.2': 'id-tc26-gost-3410-12-512-constants',
    '1.2.643.7.1.2.1.2.0': 'id-tc26-gost-3410-12-512-paramSetTest',
    '1.2.643.7.1.2.1.2.1': 'id-tc26-gost-3410-12-512-paramSetA',
    '1.2.643.7.1.2.1.2.2': 'id-tc26-gost-3410-12-512-paramSetB',
    '1.2.643.7.1.2.1.2.3': 'id-tc26-gost-3410-12-512-paramSetC',
    '1.2.643.7.1.2.2': 'id-tc26-digset-constants',
    '1.2.643.7.1.2.5': 'id-tc26-cipher-constants',
    '1.2.643.7.1.2.5.1': 'id-tc26-gost-28147-constants',
    '1.2.643.7.1.2.5.1.1': 'id-tc26-gost-28147-param-Z',
}


def names(ctx):
    def body():
        it = ctx.it
        for k, v in REGISTER.items():
            o = same(ctx, tuple(int(x) for x in k.split('.')), k)
            ctx.eq(ctx.attr(o, 'name'), v, 'the name of %s is not the registered one' % k, ctx.where(o, 'name'))
        for k in ('1.2.643.7.1.9', '1.2.3', '2.5.4.3', '1.2.643', '1.2.643.7.1.1.2.1', '1.2.643.7.1.1.2.22', '0.0'):
            o = ctx.fn('gostoid', 'ObjectIdentifier', k)
            ctx.eq(ctx.attr(o, 'name'), '', '%s is not registered but has a name' % k, ctx.where(o, 'name'))
        d = ctx.get('gostoid', 'OBJECT_IDENTIFIER_TC26')
        for k in it.payload(d):
            if k not in REGISTER:
                ctx.note('the registry has an entry this check does not know: %s' % (k,))
    ctx.scenario(body, 'registered names')


def algorithms(ctx):
    it = ctx.it

    def chk(o, num, what):
        x = ctx.attr(o, 'oid')
        w = ctx.where(o, '__init__')
        ctx.eq(strof(ctx, x), num, 'the identifier of %s is not the registered one' % what, w)
        ctx.eq(ctx.attr(x, 'digit'), tuple(int(v) for v in num.split('.')), 'the identifier of %s: tuple form' % what, w)
        ctx.eq(ctx.attr(x, 'name'), REGISTER[num], 'the identifier of %s: name' % what, w)

    def body():
        for h, n in zip(HASHES, ('2.2', '2.3')):
            chk(hash_(ctx, h), '1.2.643.7.1.1.' + n, h)
            o = hash_(ctx, h, data=ctx.sym('d', 5))
            chk(o, '1.2.643.7.1.1.' + n, h)
            chk(ctx.call(o, 'copy'), '1.2.643.7.1.1.' + n, 'a copy of ' + h)
            ctx.call(o, 'reset')
            chk(o, '1.2.643.7.1.1.' + n, h + ' after reset()')
        for h, n in zip(HMACS, ('4.1', '4.2')):
            o = hmac(ctx, h)
            chk(o, '1.2.643.7.1.1.' + n, h)
            chk(ctx.call(o, 'copy'), '1.2.643.7.1.1.' + n, 'a copy of ' + h)
            ctx.call(o, 'reset')
            chk(o, '1.2.643.7.1.1.' + n, h + ' after reset()')
            ctx.call(o, 'clear')
            chk(o, '1.2.643.7.1.1.' + n, h + ' after clear()')
        for a, n in zip(ALGS, ('5.1', '5.2')):
            chk(raw(ctx, a), '1.2.643.7.1.1.' + n, a)
            for m in MODE:
                o = stream(ctx, a, m, 1, 1 if m in ('ECB', 'CBC') else None) if m != 'MAC' else new(ctx, a, 'MAC')
                chk(o, '1.2.643.7.1.1.' + n, '%s in mode %s' % (a, m))
                ctx.call(o, 'clear')
                chk(o, '1.2.643.7.1.1.' + n, '%s in mode %s after clear()' % (a, m))
        t = it.payload(ctx.get('gostsignature', 'CURVES_R_1323565_1_024_2019'))
        for k, v in t.items():
            is512 = '512' in k
            o = ctx.fn('gostsignature', 'new', ctx.get('gostsignature', 'MODE_512' if is512 else 'MODE_256'), v)
            chk(o, '1.2.643.7.1.1.1.%d' % (2 if is512 else 1), 'the signature on %s' % k)
    ctx.scenario(body, 'identifiers of the algorithm objects')


def refusals(ctx):
    def body():
        for s, attr, msg in (
                ('', 'digit', 'invalid OID value'), ('1.2.a', 'digit', 'invalid OID value'), ('1..2', 'digit', 'invalid OID value'),
                ('abc', 'octet', 'invalid OID value'), ('1.2.', 'octet', 'invalid OID value'), ('.1.2', 'octet', 'invalid OID value'),
                ('1', 'octet', 'invalid OID value'), ('2', 'octet', 'invalid OID value'), ('1.-2.3', 'octet', 'invalid OID value'),
                ('1.2.-1', 'octet', 'invalid OID value'), ('1.2.643.-7', 'digit', 'invalid OID value'),
                ('0.40', 'octet', 'invalid second SID value'), ('1.40.5', 'octet', 'invalid second SID value'),
                ('0.1000', 'octet', 'invalid second SID value'), ('1.4000', 'octet', 'invalid second SID value'),
                ('3.1', 'octet', 'invalid first SID value'), ('3.40.1', 'octet', 'invalid first SID value'),
                ('128.1', 'octet', 'invalid first SID value')):
            o = ctx.fn('gostoid', 'ObjectIdentifier', s)
            ctx.items += 1
            try:
                ctx.attr(o, attr)
            except TargetExc as e:
                nm, m = ctx.error_of(e)
                if nm != 'GOSTOIDError' or not m.endswith(msg):
                    ctx.fail('%r: raises %s (%s) instead of GOSTOIDError (%s)' % (s, nm, m, msg), e.site)
            else:
                ctx.fail('%r: %s is accepted' % (s, attr), ctx.where(o, attr))
    ctx.scenario(body, 'malformed identifiers')


def obligations(ctx):
    top = 71 if ctx.tier == 'quick' else 513
    out = [('first two arcs', firsts), ('long identifiers', lengths), ('registered names', names),
           ('identifiers of the algorithm objects', algorithms), ('malformed identifiers', refusals)]
    for pos, total in ((0, 1), (0, 3), (1, 3), (2, 3)):
        for lo in range(0, top, 24):
            out.append(('arc %d of %d, %d bits and more' % (pos + 2, total + 2, lo), arc_bits(pos, total, lo, min(top, lo + 24))))
    out.append(('2.x', second(8, 24)))
    return out

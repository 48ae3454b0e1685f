"""The digest of a message of n unknown bytes is evaluated without summaries to
its normal form and compared with that of the definition in GOST R 34.11-2012
(gsa/spec/streebog.py in the same domain), for lengths on both sides of every
block boundary.  For arbitrarily long messages the chaining values found in the
object after two blocks are generalised to unknown h, N (a multiple of 512) and
Sigma with full 512-bit range; one more block and the final stage from there
must again agree with the definition, which is the induction step over the
number of blocks with every carry of both 512-bit additions.  hexdigest, sizes
and the constructor-data path are compared too."""
from ..common import *
from ..values import mk_int

WARM = ('spec:streebog',)
ASSUMPTIONS = ['gsa/spec/streebog.py states the standard; it is checked against its test vectors by tools/selftest.py',
               'message lengths are enumerated up to two blocks and then covered by the induction step']
BITS = {'streebog256': 256, 'streebog512': 512}


def spc(ctx):
    return spec(ctx, 'streebog')


def one(name, n):
    def run(ctx):
        ctx.it.summ = None

        def body():
            it = ctx.it
            msg = ctx.el(ctx.sym('m', n))
            want = ctx.frozen(it.call(spc(ctx)['digest'], [ctx.by(msg), BITS[name]], {}))
            o = hash_(ctx, name)
            ctx.call(o, 'update', ctx.arr(msg))
            got = ctx.frozen(ctx.call(o, 'digest'))
            ctx.eq(got, want, '%s of %d bytes differs from the standard' % (name, n), ctx.where(o, 'digest'), content=True)
            ctx.eq(ctx.call(o, 'hexdigest'), it.hexstr(ctx.el(want)), '%s: hexdigest is not the hexadecimal form' % name,
                   ctx.where(o, 'hexdigest'))
            for a, v in (('digest_size', BITS[name] // 8), ('block_size', 64), ('name', name)):
                ctx.eq(ctx.attr(o, a), v, '%s: %s' % (name, a), ctx.where(o, a))
            if n <= 64:
                o = hash_(ctx, name, data=ctx.by(msg))
                ctx.eq(ctx.call(o, 'digest'), want, '%s of %d bytes given to new() differs from the standard' % (name, n),
                       ctx.where(o, '__init__'), content=True)
            ctx.sample.append('%s, every message of %d bytes' % (name, n))
        ctx.scenario(body, '%s %d bytes' % (name, n))
    return run


def longs(name, ls):
    """Constant messages of the lengths the code names, in one piece."""
    def run(ctx):
        ctx.it.summ = None

        def body():
            it = ctx.it
            for n in ls:
                msg = bytes((i * 11 + (i >> 8) * 5 + n) & 0xff for i in range(n))
                want = ctx.frozen(it.call(spc(ctx)['digest'], [ctx.by(msg), BITS[name]], {}))
                o = hash_(ctx, name)
                ctx.call(o, 'update', ctx.arr(msg))
                ctx.eq(ctx.call(o, 'digest'), want, '%s of %d bytes differs from the standard' % (name, n),
                       ctx.where(o, 'digest'), content=True)
            ctx.sample.append('%s, one message of each of %d lengths' % (name, len(ls)))
        ctx.scenario(body, '%s, lengths named in the code' % name)
    return run


def fields(it, o, v):
    """(attribute name, representation) of fields of o that hold the byte vector v."""
    want = it.canon(it.mk_bytes(tuple(v)))[1]
    val = it.int_from_bytes(it.mk_bytes(tuple(v)), 'little')
    big = it.int_from_bytes(it.mk_bytes(tuple(v)), 'big')
    out = []
    for k, x in it.payload(o)[1].items():
        el = it.byte_items(x)
        if el is not None:
            c = it.canon(x)[1]
            if c == want:
                out.append((k, 'bytes' if it.canon(x)[0] == 'bytes' else 'bytearray'))
            elif c == want[::-1]:
                out.append((k, 'rev-' + it.canon(x)[0]))
        elif isinstance(x, (int, SInt)) and not isinstance(x, bool):
            if it.canon(x) == it.canon(val):
                out.append((k, 'int'))
            elif it.canon(x) == it.canon(big):
                out.append((k, 'big'))
        elif isinstance(x, Ref) and it.kind(x) == 'list':
            l = it.payload(x)
            if len(l) == len(v) and it.canon(ctx_bytes(it, l))[1] == want:
                out.append((k, 'list'))
    return out


def ctx_bytes(it, l):
    try:
        return it.mk_bytes(tuple(l))
    except Exception:
        return b''


def put(it, o, f, el):
    k, rep = f
    el = tuple(el)
    if rep == 'list':
        v = it.new_list(list(el))
    elif rep == 'int':
        v = it.int_from_bytes(it.mk_bytes(el), 'little')
    elif rep == 'big':
        v = it.int_from_bytes(it.mk_bytes(el), 'big')
    else:
        if rep.startswith('rev-'):
            el = el[::-1]
        v = it.mk_bytes(el) if rep.endswith('bytes') else it.new_bytearray(el)
    it.setattr(o, k, v)


def step(name, mid, tail):
    """Induction over the number of blocks from a generic chaining state."""
    def run(ctx):
        ctx.it.summ = None

        def body():
            it = ctx.it
            sp = spc(ctx)
            o = hash_(ctx, name)
            a, b = ctx.el(ctx.sym('a', 64)), ctx.el(ctx.sym('b', 64))
            ctx.call(o, 'update', ctx.arr(a))
            f1 = {k: it.canon(v) for k, v in it.payload(o)[1].items()}
            ctx.call(o, 'update', ctx.arr(b))
            f2 = {k: it.canon(v) for k, v in it.payload(o)[1].items()}
            st = it.call(sp['start'], [BITS[name]], {})
            for m in (a, b):
                st = it.call(sp['block'], [st, it.new_list(list(m))], {})
            fs = []
            for x in st:
                f = fields(it, o, it.payload(x))
                if len(f) != 1:
                    ctx.note('the chaining values are not held in one attribute each; induction step not made')
                    return
                fs.append(f[0])
            if {k for k in f2 if f1.get(k) != f2[k]} - {f[0] for f in fs}:
                ctx.note('the object keeps more than the chaining values; induction step not made')
                return
            h, s = ctx.el(ctx.sym('H', 64)), ctx.el(ctx.sym('S', 64))
            n = list(ctx.el(ctx.sym('N', 64)))
            n[0] = 0
            n[1] = it.int_binop('BitAnd', n[1], 0xfe)
            for f, el in zip(fs, (h, n, s)):
                put(it, o, f, el)
            msg = ctx.el(ctx.sym('m', mid + tail))
            st = (it.new_list(list(h)), it.new_list(list(n)), it.new_list(list(s)))
            for i in range(0, mid, 64):
                st = it.call(sp['block'], [st, it.new_list(list(msg[i:i + 64]))], {})
            want = ctx.frozen(it.call(sp['final'], [st, it.new_list(list(msg[mid:])), BITS[name]], {}))
            ctx.call(o, 'update', ctx.arr(msg))
            if mid:
                for f, x, what in zip(fs, st, ('chaining value', 'bit counter', 'checksum')):
                    v = it.payload(o)[1].get(f[0])
                    el = it.byte_items(v)
                    if el is not None and f[1] in ('bytes', 'bytearray'):
                        ctx.eq(ctx.by(el), ctx.by(it.payload(x)), '%s: after one more block the %s differs from the standard'
                               % (name, what), ctx.where(o, 'update'), content=True)
            ctx.eq(ctx.call(o, 'digest'), want, '%s: from an arbitrary chaining state, %d more bytes: digest differs from the '
                   'standard' % (name, mid + tail), ctx.where(o, 'digest'), content=True)
            ctx.sample.append('%s: induction step with %d+%d bytes from arbitrary h, N, Sigma' % (name, mid, tail))
        ctx.scenario(body, name)
    return run


def obligations(ctx):
    out = []
    ls = [0, 31, 32, 63, 64, 65, 127, 128, 130]
    if ctx.tier == 'thorough':
        ls = [0] + list(range(3, 131)) + [191, 192, 193, 256, 257]
    for h in HASHES:
        for n in ls:
            out.append(('%s, %d bytes' % (h, n), one(h, n)))
        ls_ = around(thresholds(ctx, ('gosthash', 'utils'), 131, 4096), 64, 9000)
        ls_ = [n for n in ls_ if n > 130]
        if ls_:
            out.append(('%s, lengths named in the code' % h, longs(h, ls_)))
        for mid, tail in ((64, 0), (64, 31), (0, 63), (0, 1)) + (((128, 5), (0, 2), (64, 1)) if ctx.tier == 'thorough' else ()):
            out.append(('%s, step %d+%d' % (h, mid, tail), step(h, mid, tail)))
    return out

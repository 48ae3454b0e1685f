"""Abstract semantics of the built-in types, functions and library modules the
package uses (or that an equivalent rewriting of it may use)."""
import math
import struct as _struct

from . import forms as F
from . import zpoly as Z
from .values import *
from .values import c_and, c_not, mk_int, bits_of, to_poly, from_poly, allzero_cond, lt0_cond, zbit
from . import interp as I
from .interp import Interp, Merger, UNDEF, MergeFail, cls_name

METHODS = {}


def method(kinds, *names):
    def deco(f):
        for k in kinds.split():
            for n in names:
                METHODS[(k, n)] = f
        return f
    return deco


def same_kind(it, recv, el):
    """bytes operation result of the same type as the receiver."""
    if isinstance(recv, Ref):
        return it.new_bytearray(el)
    return it.mk_bytes(el)


def blike(it, v, what='a bytes-like object is required'):
    b = it.byte_items(v)
    if b is None:
        it.throw(TypeError, what)
    return b


def concrete_bytes(it, v):
    b = blike(it, v)
    if all(isinstance(x, int) for x in b):
        return bytes(b)
    return None


# ------------------------------------------------------------------ bytes
@method('bytes bytearray', 'hex')
def _hex(it, r, sep=None, *_):
    if sep is not None:
        it.unsupported('hex separator')
    return it.hexstr(it.byte_items(r))


@method('bytes bytearray', 'decode')
def _decode(it, r, enc='utf-8', errors='strict'):
    b = concrete_bytes(it, r)
    if b is None:
        return SStr(('decode', it.canon(r), enc))
    try:
        return b.decode(enc, errors)
    except (UnicodeDecodeError, LookupError) as ex:
        it.throw(UnicodeDecodeError if isinstance(ex, UnicodeDecodeError) else LookupError, str(ex))


@method('bytes bytearray', 'ljust')
def _ljust(it, r, n, fill=b' '):
    b = it.byte_items(r)
    return same_kind(it, r, b + blike(it, fill) * max(0, n - len(b)))


@method('bytes bytearray', 'rjust')
def _rjust(it, r, n, fill=b' '):
    b = it.byte_items(r)
    return same_kind(it, r, blike(it, fill) * max(0, n - len(b)) + b)


@method('bytes bytearray', 'join')
def _bjoin(it, r, parts):
    sep = it.byte_items(r)
    out = ()
    for k, p in enumerate(it.iterate(parts)):
        if k:
            out += sep
        out += blike(it, p)
    return same_kind(it, r, out)


@method('bytes bytearray', 'startswith')
def _bstart(it, r, p, *a):
    if a:
        it.unsupported('startswith range')
    b, q = it.byte_items(r), blike(it, p)
    if len(q) > len(b):
        return False
    return it.equal(it.mk_bytes(b[:len(q)]), it.mk_bytes(q))


@method('bytes bytearray', 'endswith')
def _bend(it, r, p, *a):
    if a:
        it.unsupported('endswith range')
    b, q = it.byte_items(r), blike(it, p)
    if len(q) > len(b):
        return False
    return it.equal(it.mk_bytes(b[len(b) - len(q):]), it.mk_bytes(q))


@method('bytes bytearray', 'translate')
def _translate(it, r, table, delete=b''):
    if it.byte_items(delete):
        it.unsupported('translate with deletion')
    if isinstance(table, tuple) and table and table[0] == 'translate':
        t = list(range(256))
        for x, y in zip(table[1], table[2]):
            t[x] = y
        tab = tuple(t)
    else:
        tab = blike(it, table)
    if len(tab) != 256:
        it.throw(ValueError, 'translation table must be 256 characters long')
    out = []
    for x in it.byte_items(r):
        out.append(it.seq_get(tab, x))
    return same_kind(it, r, tuple(out))


@method('bytes bytearray', 'count', 'find', 'index', 'rfind', 'replace', 'strip', 'rstrip', 'lstrip', 'split',
        'isdigit', 'isalpha', 'upper', 'lower', 'rindex', 'partition', 'rpartition', 'removeprefix', 'removesuffix',
        'zfill', 'isalnum', 'isspace')
def _bconc(it, r, *a, **k):
    it.unsupported('content-dependent bytes method')


def _conc_bytes_method(name):
    def f(it, r, *a, **k):
        b = concrete_bytes(it, r)
        aa = []
        for x in a:
            y = it.byte_items(x)
            aa.append(bytes(y) if y is not None and all(isinstance(z, int) for z in y) else x)
        if b is None or any(isinstance(x, (Ref, SBytes, SInt, ZInt)) for x in aa):
            if name == 'count':
                p = aa[0]
                items = it.byte_items(r)
                if isinstance(p, bytes) and len(p) == 1:
                    p = p[0]
                if isinstance(p, int):
                    acc = 0
                    for x in items:
                        e = it.equal(x, p)
                        acc = it.int_binop('Add', acc, e if isinstance(e, SBool) else int(e))
                    return acc
            it.unsupported('bytes.%s on unknown content' % name)
        try:
            res = getattr(b, name)(*aa, **k)
        except (ValueError, TypeError) as ex:
            it.throw(type(ex), str(ex))
        if isinstance(res, bytes):
            return same_kind(it, r, tuple(res))
        if isinstance(res, list):
            return it.new_list(res)
        return res
    return f


for _n in ('count', 'find', 'index', 'rfind', 'replace', 'strip', 'rstrip', 'lstrip', 'split', 'isdigit', 'isalpha',
           'upper', 'lower', 'rindex', 'partition', 'rpartition', 'removeprefix', 'removesuffix', 'zfill', 'isalnum',
           'isspace'):
    METHODS[('bytes', _n)] = METHODS[('bytearray', _n)] = _conc_bytes_method(_n)


@method('bytes bytearray list tuple str range', '__len__')
def _len(it, r):
    return it.b_len(r)


@method('bytes bytearray list tuple dict str', '__getitem__')
def _gi(it, r, i):
    return it.getitem(r, i)


@method('bytearray list dict', '__setitem__')
def _si(it, r, i, v):
    it.setitem(r, i, v)


@method('bytes bytearray list tuple dict str', '__contains__')
def _ct(it, r, v):
    return it.contains(r, v)


@method('bytes bytearray list tuple dict str range', '__iter__')
def _iter(it, r):
    return IterVal(it.iterate(r))


@method('bytes bytearray list tuple dict str int', '__eq__')
def _eq(it, r, v):
    return it.equal(r, v)


@method('bytes bytearray list tuple dict str int', '__ne__')
def _ne(it, r, v):
    e = it.equal(r, v)
    return it.mkbool(c_not(e.expr)) if isinstance(e, SBool) else not e


for _nm, _opn in (('__xor__', 'BitXor'), ('__and__', 'BitAnd'), ('__or__', 'BitOr'), ('__add__', 'Add'),
                  ('__sub__', 'Sub'), ('__mul__', 'Mult'), ('__mod__', 'Mod'), ('__floordiv__', 'FloorDiv'),
                  ('__lshift__', 'LShift'), ('__rshift__', 'RShift'), ('__pow__', 'Pow')):
    def _mk(opn):
        import ast
        cls = getattr(ast, opn)
        return lambda it, r, v: it.binop(cls(), r, v)
    for _k in ('int', 'bytes', 'bytearray', 'str', 'list', 'tuple'):
        METHODS[(_k, _nm)] = _mk(_opn)


# -------------------------------------------------------------- bytearray
@method('bytearray', 'append')
def _ba_append(it, r, v):
    it.store(r, 'bytearray', it.payload(r) + (it.to_byte(v),))


@method('bytearray', 'extend', '__iadd__')
def _ba_extend(it, r, v):
    b = it.byte_items(v)
    if b is None:
        b = tuple(it.to_byte(x) for x in it.iterate(v))
    it.store(r, 'bytearray', it.payload(r) + tuple(b))
    return None


@method('bytearray', 'insert')
def _ba_insert(it, r, i, v):
    l = list(it.payload(r))
    l.insert(i, it.to_byte(v))
    it.store(r, 'bytearray', tuple(l))


@method('bytearray list', 'pop')
def _pop(it, r, i=-1):
    l = list(it.payload(r))
    try:
        v = l.pop(i)
    except IndexError as ex:
        it.throw(IndexError, str(ex))
    it.store(r, it.kind(r), tuple(l))
    return v


@method('bytearray list', 'reverse')
def _reverse(it, r):
    it.store(r, it.kind(r), it.payload(r)[::-1])


@method('bytearray list', 'clear')
def _clear(it, r):
    it.store(r, it.kind(r), ())


@method('bytearray list', 'copy')
def _copy(it, r):
    return it.alloc(it.kind(r), it.payload(r))


# -------------------------------------------------------------------- list
@method('list', 'append')
def _l_append(it, r, v):
    it.store(r, 'list', it.payload(r) + (v,))


@method('list', 'extend', '__iadd__')
def _l_extend(it, r, v):
    items = it.iterate(v)
    it.store(r, 'list', it.payload(r) + tuple(items))


@method('list', 'insert')
def _l_insert(it, r, i, v):
    l = list(it.payload(r))
    l.insert(i, v)
    it.store(r, 'list', tuple(l))


@method('list', 'remove')
def _l_remove(it, r, v):
    l = list(it.payload(r))
    for k, x in enumerate(l):
        if it.concrete_truth(it.equal(x, v)):
            del l[k]
            it.store(r, 'list', tuple(l))
            return
    it.throw(ValueError, 'list.remove(x): x not in list')


@method('list tuple range', 'index')
def _l_index(it, r, v, *a):
    for k, x in enumerate(it.iterate(r)):
        if it.concrete_truth(it.equal(x, v)):
            return k
    it.throw(ValueError, 'not in list')


@method('list tuple range', 'count')
def _l_count(it, r, v):
    acc = 0
    for x in it.iterate(r):
        e = it.equal(x, v)
        acc = it.int_binop('Add', acc, e if isinstance(e, SBool) else int(e))
    return acc


@method('list', 'sort')
def _l_sort(it, r, key=None, reverse=False):
    it.store(r, 'list', tuple(it.payload(it.b_sorted(r, key=key, reverse=reverse))))


# -------------------------------------------------------------------- dict
@method('dict', 'get')
def _d_get(it, r, k, d=None):
    k = it.hashkey(k) if not isinstance(k, SStr) else k
    if isinstance(k, SStr):
        return d
    return it.payload(r).get(k, d)


@method('dict', 'keys')
def _d_keys(it, r):
    return it.new_list(it.payload(r).keys())


@method('dict', 'values')
def _d_values(it, r):
    return it.new_list(it.payload(r).values())


@method('dict', 'items')
def _d_items(it, r):
    return it.new_list(it.payload(r).items())


@method('dict', 'update')
def _d_update(it, r, o=None, **kw):
    d = dict(it.payload(r))
    if o is not None:
        if isinstance(o, Ref) and it.kind(o) == 'dict':
            d.update(it.payload(o))
        else:
            for x in it.iterate(o):
                k, v = it.iterate(x)
                d[it.hashkey(k)] = v
    d.update(kw)
    it.store(r, 'dict', d)


@method('dict', 'pop')
def _d_pop(it, r, k, *dflt):
    d = dict(it.payload(r))
    if k in d:
        v = d.pop(k)
        it.store(r, 'dict', d)
        return v
    if dflt:
        return dflt[0]
    it.throw(KeyError, repr(k))


@method('dict', 'setdefault')
def _d_setdefault(it, r, k, v=None):
    d = dict(it.payload(r))
    if k in d:
        return d[k]
    d[it.hashkey(k)] = v
    it.store(r, 'dict', d)
    return v


@method('dict', 'copy')
def _d_copy(it, r):
    return it.alloc('dict', dict(it.payload(r)))


@method('dict', 'clear')
def _d_clear(it, r):
    it.store(r, 'dict', {})


@method('dict', 'popitem')
def _d_popitem(it, r):
    d = dict(it.payload(r))
    if not d:
        it.throw(KeyError, 'popitem(): dictionary is empty')
    x = d.popitem()
    it.store(r, 'dict', d)
    return x


@method('dict', '__len__')
def _d_len(it, r):
    return len(it.payload(r))


# --------------------------------------------------------------------- set
@method('set', 'add')
def _s_add(it, r, v):
    p = it.payload(r)
    if v not in p:
        it.store(r, 'set', p + (v,))


@method('set', 'discard', 'remove')
def _s_discard(it, r, v):
    it.store(r, 'set', tuple(x for x in it.payload(r) if x != v))


@method('set', 'update')
def _s_update(it, r, *o):
    p = it.payload(r)
    for y in o:
        for x in it.iterate(y):
            if x not in p:
                p += (x,)
    it.store(r, 'set', p)


@method('set', 'union')
def _s_union(it, r, *o):
    s = it.alloc('set', it.payload(r))
    _s_update(it, s, *o)
    return s


@method('set', 'copy')
def _s_copy(it, r):
    return it.alloc('set', it.payload(r))


@method('set', 'clear')
def _s_clear(it, r):
    it.store(r, 'set', ())


@method('set', 'issubset')
def _s_issub(it, r, o):
    q = it.iterate(o)
    return all(x in q for x in it.payload(r))


@method('set', 'issuperset')
def _s_issup(it, r, o):
    q = it.payload(r)
    return all(x in q for x in it.iterate(o))


@method('set', 'intersection')
def _s_inter(it, r, o):
    q = it.iterate(o)
    return it.alloc('set', tuple(x for x in it.payload(r) if x in q))


@method('set', 'difference')
def _s_diff(it, r, o):
    q = it.iterate(o)
    return it.alloc('set', tuple(x for x in it.payload(r) if x not in q))


# --------------------------------------------------------------------- int
@method('int', 'to_bytes')
def _to_bytes(it, v, length=1, byteorder='big', signed=False):
    if signed:
        it.unsupported('signed to_bytes')
    if byteorder not in ('big', 'little'):
        it.throw(ValueError, "byteorder must be either 'little' or 'big'")
    if not isinstance(length, int):
        it.unsupported('symbolic length')
    if length < 0:
        it.throw(ValueError, 'length argument must be non-negative')
    if isinstance(v, int):
        try:
            return int(v).to_bytes(length, byteorder)
        except OverflowError as ex:
            it.throw(OverflowError, str(ex))
    n = 8 * length
    if isinstance(v, ZInt):
        lo, hi = Z.interval(v.poly)
        if lo is None or lo < 0:
            neg = lt0_cond(v.poly)
            k = it.known(neg)
            if k is None:
                k = it.decide(neg)
            if k:
                it.throw(OverflowError, "can't convert negative int to unsigned")
        if hi is None or hi >> n:
            e = lt0_cond(Z.sub(v.poly, Z.const(1 << n)))
            k = it.known(e)
            if k is None:
                k = it.decide(e)
            if not k:
                it.throw(OverflowError, 'int too big to convert')
        bits = [zbit(v.poly, i) for i in range(n)]
    else:
        bits = list(bits_of(v))
        if len(bits) > n:
            e = allzero_cond(bits[n:])
            k = it.known(e)
            if k is None:
                k = it.decide(e)
            if not k:
                it.throw(OverflowError, 'int too big to convert')
            bits = bits[:n]
    bits += [0] * (n - len(bits))
    el = [mk_int(bits[i:i + 8]) for i in range(0, n, 8)]
    if byteorder == 'big':
        el.reverse()
    return it.mk_bytes(el)


@method('int', 'bit_length')
def _bit_length(it, v):
    if isinstance(v, int):
        return int(v).bit_length()
    b = bits_of(v)
    if b is not None:
        n = len(b)
        while n and b[n - 1] == 0:
            n -= 1
        if n <= 24 or b[n - 1] == 1:
            while n:
                e = allzero_cond(b[n - 1:n])
                k = it.known(e)
                if k is None:
                    k = it.decide(e)
                if not k:
                    break
                n -= 1
            return n
    p = to_poly(v)
    return from_poly(Z.zatom(('bitlen', p), 0, None if b is None else len(b)))


@method('int', 'bit_count')
def _bit_count(it, v):
    if isinstance(v, int):
        return bin(v).count('1')
    acc = 0
    for f in bits_of(v) or it.unsupported('bit_count'):
        acc = it.int_binop('Add', acc, mk_int((f,)))
    return acc


@method('int', 'conjugate', '__int__', '__index__', '__pos__', '__abs__')
def _conj(it, v):
    return v


# --------------------------------------------------------------------- str
def dec_str(c):
    """The decimal representation of a number given as int or as a tuple of bits."""
    return str(c) if isinstance(c, int) else SStr(('dec', c))


def _str_m(name):
    def f(it, s, *a, **k):
        if isinstance(s, SStr):
            if name in ('startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isspace'):
                return SBool(('opq', ('str', name, s.key, tuple(it.canon(x) for x in a))))
            if s.key[0] == 'dotted' and name in ('split', 'rsplit') and list(a) == ['.'] and not k:
                return it.new_list([dec_str(x) for x in s.key[1]])
            if s.key[0] == 'dec' and name in ('isdigit', 'isdecimal', 'isnumeric', 'isalnum', 'isascii'):
                return True
            if s.key[0] == 'dec' and name in ('isspace', 'isalpha'):
                return False
            if s.key[0] in ('dec', 'dotted') and name == 'strip' and not a:
                return s
            if name == 'encode':
                it.unsupported('encode of an unknown string')
            if name in ('split', 'find', 'index', 'count', 'partition'):
                it.unsupported('str.%s of an unknown string' % name)
            if s.key[0] == 'hex' and name in ('lower', 'strip'):
                return s
            return SStr(('m', name, s.key, tuple(it.canon(x) for x in a)))
        if any(isinstance(x, SStr) for x in a):
            if name in ('startswith', 'endswith'):
                return SBool(('opq', ('str', name, s, tuple(it.canon(x) for x in a))))
            return SStr(('m', name, s, tuple(it.canon(x) for x in a)))
        try:
            r = getattr(s, name)(*a, **k)
        except Exception as ex:          # the exact exception the method raises
            if type(ex).__name__ in I.NATIVE_TYPES:
                it.throw(type(ex), str(ex))
            raise
        if isinstance(r, list):
            return it.new_list(r)
        return r
    return f


for _n in ('upper', 'lower', 'split', 'rsplit', 'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'replace',
           'zfill', 'isdigit', 'isalpha', 'isalnum', 'isdecimal', 'isnumeric', 'isspace', 'isascii', 'find', 'index', 'count', 'rjust', 'ljust',
           'center', 'encode', 'partition', 'rpartition', 'title', 'capitalize', 'splitlines', 'casefold', 'rfind',
           'removeprefix', 'removesuffix', 'isidentifier', 'isupper', 'islower', 'swapcase'):
    METHODS[('str', _n)] = _str_m(_n)


@method('str', 'join')
def _s_join(it, s, parts):
    l = it.iterate(parts)
    for p in l:
        if not isinstance(p, (str, SStr)):
            it.throw(TypeError, 'sequence item: expected str instance')
    if isinstance(s, SStr):
        it.unsupported('join')
    return it.join_strs(s, l)


@method('str', 'format')
def _s_format(it, s, *a, **k):
    if isinstance(s, str) and all(isinstance(x, (int, str, float, type(None))) for x in list(a) + list(k.values())):
        try:
            return s.format(*a, **k)
        except (IndexError, KeyError, ValueError) as ex:
            it.throw(type(ex), str(ex))
    if isinstance(s, str) and s in ('{:02x}', '{0:02x}') and len(a) == 1 and isinstance(a[0], SInt) and len(a[0].bits) <= 8:
        return SStr(('hex', I.HexEl((a[0],))))
    return SStr(('format', it.canon(s), tuple(it.canon(x) for x in a)))


# ------------------------------------------------------------- construction
def construct(it, t, args, kw):
    if t is int:
        return _int(it, *args, **kw)
    if t is bytes or t is bytearray:
        return _bytes(it, t, *args, **kw)
    if t is list:
        return it.new_list(it.iterate(args[0]) if args else ())
    if t is tuple:
        return tuple(it.iterate(args[0])) if args else ()
    if t in (set, frozenset):
        out = []
        for x in (it.iterate(args[0]) if args else ()):
            if x not in out:
                out.append(it.hashkey(x))
        return it.alloc('set', tuple(out))
    if t is dict:
        d = {}
        if args:
            o = args[0]
            if isinstance(o, Ref) and it.kind(o) == 'dict':
                d.update(it.payload(o))
            else:
                for x in it.iterate(o):
                    k, v = it.iterate(x)
                    d[it.hashkey(k)] = v
        d.update(kw)
        return it.new_dict(d)
    if t is str:
        if not args:
            return ''
        x = args[0]
        if isinstance(x, (str, SStr)):
            return x
        if isinstance(x, (bool, int, float, type(None))):
            return str(x)
        if len(args) > 1 and it.byte_items(x) is not None:
            return _decode(it, x, *args[1:])
        if isinstance(x, Ref) and it.kind(x) == 'obj':
            cls, fl = it.payload(x)
            if isinstance(cls, ClassVal):
                f, _ = it.class_lookup(cls, '__str__')
                if f is not None:
                    return it.call(Bound(f, x), [], {})
            if 'args' in fl:
                a = fl['args']
                return str(a[0]) if len(a) == 1 and isinstance(a[0], (str, int)) else SStr(('str', it.canon(a)))
        if isinstance(x, tuple) and all(isinstance(y, (int, str)) for y in x):
            return str(x)
        return SStr(('str', it.canon(x)))
    if t is bool:
        return it.truth(args[0]) if args else False
    if t is range:
        for a in args:
            if isinstance(a, (SInt, ZInt, SBool)):
                return SymRange(it, args)
            if not isinstance(a, int):
                it.throw(TypeError, "'%s' object cannot be interpreted as an integer" % it.type_name(a))
        try:
            return RangeVal(range(*args))
        except (TypeError, ValueError) as ex:
            it.throw(type(ex), str(ex))
    if t is object:
        return it.alloc('obj', (object, {}))
    if t is type:
        if len(args) == 1:
            return it.type_of(args[0])
        it.unsupported('type() with three arguments')
    if t is float:
        x = args[0] if args else 0
        if isinstance(x, (int, float, str)):
            try:
                return float(x)
            except ValueError as ex:
                it.throw(ValueError, str(ex))
        it.unsupported('float of unknown')
    if t is slice:
        return slice(*args)
    if t is memoryview:
        # a view aliases the buffer: reading is the same as reading the buffer
        if args and it.byte_items(args[0]) is not None:
            return args[0]
        it.throw(TypeError, 'memoryview: a bytes-like object is required')
    if isinstance(t, type) and issubclass(t, BaseException):
        return it.alloc('obj', (t, {'args': tuple(args)}))
    it.unsupported('construction of %s' % t.__name__)


def SymRange(it, args):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args
    polys = tuple(to_poly(x) for x in (start, stop, step))
    # a decided sign may make the range empty
    d = it.known(lt0_cond(Z.sub(polys[0], polys[1])))
    if d is False and isinstance(step, int) and step > 0:
        return RangeVal(range(0))
    return SymSeq(('range',) + polys, None)


def _int(it, x=0, base=None):
    if isinstance(x, SStr) and x.key[0] == 'dec' and base in (None, 10, 0):
        return mk_int(x.key[1])
    if base is not None:
        if isinstance(x, SStr) and x.key[0] == 'hex' and base == 16:
            return it.int_from_bytes(it.mk_bytes(x.key[1]))
        b = it.byte_items(x)
        if b is not None and all(isinstance(y, int) for y in b):
            x = bytes(b)
        if isinstance(x, (str, bytes)):
            try:
                return int(x, base)
            except ValueError as ex:
                it.throw(ValueError, str(ex))
        if isinstance(x, SStr):
            it.unsupported('int of an unknown string')
        it.throw(TypeError, "int() can't convert non-string with explicit base")
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, SInt, ZInt)):
        return x
    if isinstance(x, SBool):
        return mk_int((I.form_of_cond(x.expr),))
    if isinstance(x, (float, str)):
        try:
            return int(x)
        except (ValueError, OverflowError) as ex:
            it.throw(type(ex), str(ex))
    b = it.byte_items(x)
    if b is not None:
        c = concrete_bytes(it, x)
        if c is None:
            it.unsupported('int of unknown bytes')
        try:
            return int(c)
        except ValueError as ex:
            it.throw(ValueError, str(ex))
    if isinstance(x, Opaque) and x.name == 'float':
        it.unsupported('int of unknown float')
    if isinstance(x, SStr):
        it.unsupported('int of an unknown string')
    if isinstance(x, Ref) and it.kind(x) == 'obj':
        for n in ('__int__', '__index__'):
            f, _ = it.class_lookup(it.payload(x)[0], n)
            if f is not None:
                return it.call(Bound(f, x), [], {})
    it.throw(TypeError, "int() argument must be a string, a bytes-like object or a real number, not '%s'"
             % it.type_name(x))


def _bytes(it, t, x=UNDEF, encoding=None, errors=None):
    def mk(el):
        return it.new_bytearray(el) if t is bytearray else it.mk_bytes(el)
    if x is UNDEF:
        return mk(())
    if isinstance(x, str):
        if encoding is None:
            it.throw(TypeError, 'string argument without an encoding')
        try:
            return mk(tuple(x.encode(encoding)))
        except (UnicodeEncodeError, LookupError) as ex:
            it.throw(type(ex), str(ex))
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        if x < 0:
            it.throw(ValueError, 'negative count')
        if x > 1 << 22:
            it.unsupported('very large buffer')
        return mk((0,) * x)
    if isinstance(x, (SInt, ZInt, SBool)):
        it.unsupported('buffer of unknown length')
    b = it.byte_items(x)
    if b is not None:
        if isinstance(x, (bytes, SBytes)) and t is bytes:
            return x
        return mk(b)
    if isinstance(x, SStr):
        if encoding is None:
            it.throw(TypeError, 'string argument without an encoding')
        it.unsupported('bytes of an unknown string')
    if isinstance(x, Ref) and it.kind(x) == 'obj':
        f, _ = it.class_lookup(it.payload(x)[0], '__bytes__')
        if f is not None:
            return it.call(Bound(f, x), [], {})
        f, _ = it.class_lookup(it.payload(x)[0], '__iter__')
        if f is None:
            it.throw(TypeError, "cannot convert '%s' object to bytes" % it.type_name(x))
    if x is None or isinstance(x, float):
        it.throw(TypeError, "cannot convert '%s' object to bytes" % it.type_name(x))
    return mk(tuple(it.to_byte(y) for y in it.iterate(x)))


# ------------------------------------------------------- builtin functions
def _builtin(f):
    setattr(Interp, f.__name__, f)
    return f


@_builtin
def b_len(it, v):
    if isinstance(v, (tuple, list, str, bytes)):
        return len(v)
    if isinstance(v, SBytes):
        return len(v.el)
    if isinstance(v, RangeVal):
        return len(v.r)
    if isinstance(v, SStr):
        if v.key[0] == 'hex':
            return 2 * len(v.key[1])
        it.unsupported('length of an unknown string')
    if isinstance(v, Ref):
        k = it.kind(v)
        if k != 'obj':
            return len(it.payload(v))
        cls = it.payload(v)[0]
        if isinstance(cls, ClassVal):
            f, _ = it.class_lookup(cls, '__len__')
            if f is not None:
                return it.call(Bound(f, v), [], {})
    if isinstance(v, SymSeq):
        it.unsupported('length of an unknown sequence')
    it.throw(TypeError, "object of type '%s' has no len()" % it.type_name(v))


def _order(it, vals, want_min):
    import ast
    best = vals[0]
    for v in vals[1:]:
        c = it.compare(ast.Lt(), v, best) if want_min else it.compare(ast.Gt(), v, best)
        if isinstance(c, SBool):
            m = Merger(it, c.expr, None, None, None)
            try:
                best = m.mux(v, best)
            except MergeFail:
                if it.decide(c.expr):
                    best = v
        elif c:
            best = v
    return best


def _minmax(it, args, kw, want_min):
    key = kw.get('key')
    vals = it.iterate(args[0]) if len(args) == 1 else list(args)
    if not vals:
        if 'default' in kw:
            return kw['default']
        it.throw(ValueError, 'arg is an empty sequence')
    if key is None:
        return _order(it, vals, want_min)
    ks = [it.call(key, [v], {}) for v in vals]
    if all(isinstance(k, (int, str, float)) for k in ks):
        f = min if want_min else max
        return vals[ks.index(f(ks))]
    it.unsupported('min/max with an unknown key')


@_builtin
def b_min(it, *args, **kw):
    return _minmax(it, args, kw, True)


@_builtin
def b_max(it, *args, **kw):
    return _minmax(it, args, kw, False)


@_builtin
def b_sum(it, seq, start=0):
    import ast
    acc = start
    if isinstance(seq, SymSeq):
        it.unsupported('sum over an unknown sequence')
    for v in it.iterate(seq):
        acc = it.binop(ast.Add(), acc, v)
    return acc


@_builtin
def b_any(it, seq):
    es = []
    for v in it.iterate(seq):
        c = it.truth(v)
        if isinstance(c, SBool):
            es.append(c.expr)
        elif c:
            return True
    if len(es) > 1 and it.timing is not None:
        it.timing.append(('branch', es[0], it.where()))
    return it.mkbool(c_or(es)) if es else False


@_builtin
def b_all(it, seq):
    es = []
    for v in it.iterate(seq):
        c = it.truth(v)
        if isinstance(c, SBool):
            es.append(c.expr)
        elif not c:
            return False
    if len(es) > 1 and it.timing is not None:
        it.timing.append(('branch', es[0], it.where()))
    return it.mkbool(c_and(es)) if es else True


@_builtin
def b_abs(it, v):
    if isinstance(v, (int, float)):
        return abs(v)
    p = to_poly(v)
    e = lt0_cond(p)
    k = it.known(e)
    if k is None:
        m = Merger(it, e, None, None, None)
        return m.mux(from_poly(Z.neg(p)), v)
    return from_poly(Z.neg(p)) if k else v


@_builtin
def b_enumerate(it, seq, start=0):
    if isinstance(seq, InfIter):
        return InfIter(lambda i: (start + i, seq.fn(seq.pos + i)))
    r = IterVal([(start + i, v) for i, v in enumerate(it.iterate(seq, True))])
    r.endless = getattr(seq, 'endless', None)
    return r


@_builtin
def b_zip(it, *seqs, strict=False):
    ls = []
    more = []
    for s in seqs:
        if isinstance(s, InfIter):
            ls.append(None)
        else:
            ls.append(it.iterate(s, True))
            if getattr(s, 'endless', None) is not None:
                more.append((len(ls[-1]), s.endless))
    fin = [len(l) for l in ls if l is not None]
    if not fin:
        if not seqs:
            return IterVal([])
        it.unsupported('endless zip')
    n = min(fin)
    if strict and len(set(fin)) > 1:
        it.throw(ValueError, 'zip() arguments have different lengths')
    cols = [l[:n] if l is not None else s.take(n) for l, s in zip(ls, seqs)]
    r = IterVal(list(zip(*cols)))
    r.endless = next((e for k, e in more if k == n), None)
    return r


class InfIter(Opaque):
    def __init__(self, fn):
        super().__init__('infinite iterator')
        self.fn = fn
        self.pos = 0

    def take(self, n):
        out = [self.fn(self.pos + i) for i in range(n)]
        self.pos += n
        return out


@_builtin
def b_reversed(it, seq):
    if isinstance(seq, RangeVal):
        return IterVal(list(reversed(seq.r)))
    return IterVal(it.iterate(seq)[::-1])


@_builtin
def b_sorted(it, seq, key=None, reverse=False):
    l = it.iterate(seq)
    ks = l if key is None else [it.call(key, [v], {}) for v in l]
    try:
        if not all(isinstance(k, (int, str, float, bytes, tuple)) for k in ks):
            raise TypeError
        order = sorted(range(len(l)), key=lambda i: ks[i], reverse=it.concrete_truth(reverse))
    except TypeError:
        it.unsupported('sorting unknown values')
    return it.new_list([l[i] for i in order])


@_builtin
def b_map(it, f, *seqs):
    ls = [it.iterate(s) for s in seqs]
    return IterVal([it.call(f, list(t), {}) for t in zip(*ls)])


@_builtin
def b_filter(it, f, seq):
    out = []
    for v in it.iterate(seq):
        c = it.truth(v if f is None else it.call(f, [v], {}))
        if isinstance(c, SBool):
            c = it.decide(c.expr)
        if c:
            out.append(v)
    return IterVal(out)


_MISS = Opaque('missing')


@_builtin
def b_hasattr(it, o, name):
    if not isinstance(name, str):
        it.throw(TypeError, 'attribute name must be string')
    depth = len(it.stack)
    try:
        return it.getattr(o, name, _MISS) is not _MISS
    except I.TargetExc as exc:
        if it.is_subclass(exc.cls, AttributeError):
            del it.stack[depth:]
            return False
        raise


@_builtin
def b_getattr(it, o, name, *d):
    if d:
        depth = len(it.stack)
        try:
            r = it.getattr(o, name, _MISS)
        except I.TargetExc as exc:
            if it.is_subclass(exc.cls, AttributeError):
                del it.stack[depth:]
                return d[0]
            raise
        return d[0] if r is _MISS else r
    return it.getattr(o, name)


@_builtin
def b_setattr(it, o, name, v):
    it.setattr(o, name, v)


@_builtin
def b_delattr(it, o, name):
    cls, fl = it.payload(o)
    fl = dict(fl)
    if name not in fl:
        it.throw(AttributeError, name)
    del fl[name]
    it.store(o, 'obj', (cls, fl))


@_builtin
def b_callable(it, v):
    return isinstance(v, (Func, Bound, Builtin, ClassVal, type))


@_builtin
def b_id(it, v):
    if isinstance(v, Ref):
        return 0x10000 + v.addr
    return 1


@_builtin
def b_hash(it, v):
    it.unsupported('hash()')


@_builtin
def b_repr(it, v):
    if isinstance(v, (int, str, bool, type(None), bytes)):
        return repr(v)
    return SStr(('repr', it.canon(v)))


@_builtin
def b_hex(it, v):
    if isinstance(v, int):
        return hex(v)
    return SStr(('hexint', it.canon(v)))


@_builtin
def b_bin(it, v):
    if isinstance(v, int):
        return bin(v)
    return BinStr(it, v)


def BinStr(it, v):
    return SStr(('binint', it.canon(v)))


@_builtin
def b_oct(it, v):
    if isinstance(v, int):
        return oct(v)
    return SStr(('octint', it.canon(v)))


@_builtin
def b_ord(it, v):
    if isinstance(v, str) and len(v) == 1:
        return ord(v)
    b = it.byte_items(v)
    if b is not None and len(b) == 1:
        return b[0]
    it.unsupported('ord()')


@_builtin
def b_chr(it, v):
    if isinstance(v, int):
        try:
            return chr(v)
        except ValueError as ex:
            it.throw(ValueError, str(ex))
    return SStr(('chr', it.canon(v)))


@_builtin
def b_format(it, v, spec=''):
    if isinstance(v, (int, str, float)) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError as ex:
            it.throw(ValueError, str(ex))
    if spec == '02x' and isinstance(v, SInt) and len(v.bits) <= 8:
        return SStr(('hex', I.HexEl((v,))))
    return SStr(('fmt', it.canon(v), spec))


@_builtin
def b_divmod(it, a, b):
    import ast
    return (it.binop(ast.FloorDiv(), a, b), it.binop(ast.Mod(), a, b))


@_builtin
def b_pow(it, a, b, m=None):
    import ast
    if m is None:
        return it.binop(ast.Pow(), a, b)
    if all(isinstance(x, int) for x in (a, b, m)):
        try:
            return pow(a, b, m)
        except (ValueError, ZeroDivisionError) as ex:
            it.throw(type(ex), str(ex))
    pm = to_poly(m)
    if Z.as_const(pm) == 0:
        it.throw(ValueError, 'pow() 3rd argument cannot be 0')
    pa = to_poly(a)
    if isinstance(b, int):
        if b == -1:
            return from_poly(Z.mod(Z.inv(pa, pm), pm))
        if b < 0:
            return from_poly(Z.mod(Z.power(Z.inv(pa, pm), -b), pm)) if b > -16 else it.unsupported('power')
        mc = Z.as_const(pm)
        if mc is not None and b == mc - 2 and mc > 5 and is_prime(mc):
            return from_poly(Z.mod(Z.inv(pa, pm), pm))
        if b <= 16:
            return from_poly(Z.mod(Z.power(pa, b), pm))
    if isinstance(b, ZInt) and b.poly == Z.sub(pm, Z.const(2)):
        # Fermat inverse (the moduli of the package are prime)
        return from_poly(Z.mod(Z.inv(pa, pm), pm))
    hi = Z.interval(pm)[1]
    return from_poly(Z.zatom(('pow', Z.canon_mod(pa, pm), to_poly(b), pm), 0, None if hi is None else hi - 1))


_PRIME = {}


def is_prime(n):
    if n not in _PRIME:
        _PRIME[n] = _miller_rabin(n)
    return _PRIME[n]


def _miller_rabin(n, rounds=40):
    if n < 2:
        return False
    small = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37)
    for p in small:
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    import random
    rnd = random.Random(1)
    for a in list(small) + [rnd.randrange(2, n - 1) for _ in range(rounds)]:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


@_builtin
def b_iter(it, v, *a):
    if a:
        it.unsupported('iter with a sentinel')
    if isinstance(v, (IterVal, SymSeq)):
        return v
    return IterVal(it.iterate(v))


@_builtin
def b_property(it, fget=None, fset=None, fdel=None, doc=None):
    return PropVal(fget, fset, fdel)


@_builtin
def b_staticmethod(it, f):
    return StaticM(f)


@_builtin
def b_classmethod(it, f):
    return ClassM(f)


@_builtin
def b_super(it, *a):
    if len(a) == 2:
        return SuperVal(a[0], a[1])
    it.unsupported('super')


@_builtin
def b_print(it, *a, **k):
    return None


@_builtin
def b_round(it, v, n=None):
    if isinstance(v, (int, float)):
        return round(v) if n is None else round(v, n)
    it.unsupported('round')


@_builtin
def b_locals(it):
    it.unsupported('locals')


b_globals = b_vars = b_eval = b_exec = b_locals
for _n in ('b_globals', 'b_vars', 'b_eval', 'b_exec', 'b_dir', 'b_open', 'b___import__', 'b_compile', 'b_input'):
    setattr(Interp, _n, b_locals)


# ------------------------------------------------------------------ stubs
BIND = [None]       # inputs as constants (confirmation of a difference)


def sym_bytes(name, n):
    """n unknown bytes called `name`."""
    if BIND[0] is not None:
        BIND[0].v.sizes[name] = n
        return tuple(BIND[0].byte(name, i) for i in range(n))
    return tuple(SInt(tuple(F.atom(('in', name, 8 * i + j)) for j in range(8))) for i in range(n))


def draw(it, n, kind='rand'):
    """n random bytes; `kind` names the source ('rand': the operating system's)."""
    k = it.rand_count
    it.rand_count += 1
    name = '%s#%d' % (kind, k)
    it.rand_calls.append((name, n, it.where(), tuple(it.trace())))
    if it.rand_script is not None and kind == 'rand':
        base, items = it.rand_script
        if callable(items):
            return it.mk_bytes(tuple(items(n)))
        if base <= k < base + len(items):
            v = items[k - base]
            if len(v) != n:
                it.unsupported('scripted random value of another size')
            return it.mk_bytes(tuple(v))
    return it.mk_bytes(sym_bytes(name, n))


def urandom(it, n=None, kind='rand'):
    if n is None:
        n = 32
    if not isinstance(n, int):
        it.unsupported('random bytes of unknown length')
    if n < 0:
        it.throw(ValueError, 'negative argument not allowed')
    return draw(it, n, kind)


def below(it, n, kind='rand'):
    """A uniform integer below n (rejection sampling inside)."""
    if it.rand_script is not None and kind == 'rand' and isinstance(n, int) and not callable(it.rand_script[1]):
        while True:
            base, items = it.rand_script
            if not base <= it.rand_count < base + len(items):
                break
            v = it.int_from_bytes(draw(it, len(items[it.rand_count - base]), kind))
            if v < n:
                return v
    k = it.rand_count
    it.rand_count += 1
    nm = '%s#%d' % (kind, k)
    it.rand_calls.append((nm, 'below', it.where(), tuple(it.trace())))
    hi = Z.interval(to_poly(n))[1]
    return from_poly(Z.zatom(('sym', nm), 0, None if hi is None else hi - 1))


def randbits(it, n, kind='rand'):
    if not isinstance(n, int) or n % 8:
        it.unsupported('random integer of unknown size')
    return it.int_from_bytes(draw(it, n // 8, kind))


class RandomSource(Opaque):
    """An instance of random.Random or random.SystemRandom."""

    def __init__(self, kind):
        super().__init__('random source')
        self.kind = kind


def random_source(it, name, kind):
    """A function of the module random, or of random.SystemRandom."""
    if name == 'randbytes':
        return Builtin(name, lambda n: urandom(it, n, kind))
    if name == 'getrandbits':
        return Builtin(name, lambda n: randbits(it, n, kind))
    if name == 'randrange':
        def rr(a, b=None, step=1):
            if step != 1:
                it.unsupported('randrange with a step')
            if b is None:
                return below(it, a, kind)
            return it.int_binop('Add', a, below(it, it.int_binop('Sub', b, a), kind))
        return Builtin(name, rr)
    if name == 'randint':
        return Builtin(name, lambda a, b: it.int_binop('Add', a, below(it, it.int_binop('Add', it.int_binop('Sub', b, a), 1), kind)))
    if name == 'seed':
        return Builtin(name, lambda *a: None)
    it.unsupported('random.%s' % name)


class VersionInfo(tuple):
    FIELDS = ('major', 'minor', 'micro', 'releaselevel', 'serial')


def _struct_pack(it, fmt, *vals):
    toks, order = _struct_tokens(it, fmt)
    out = ()
    vals = list(vals)
    for cnt, ch in toks:
        if ch == 's':
            b = blike(it, vals.pop(0))
            out += (b + (0,) * cnt)[:cnt]
            continue
        if ch == 'x':
            out += (0,) * cnt
            continue
        for _ in range(cnt):
            v = vals.pop(0)
            size = _SZ[ch]
            if ch.islower() and ch not in 'x':
                if isinstance(v, int):
                    out += tuple(_struct.pack(order + ch, v))
                    continue
                it.unsupported('signed struct field')
            if isinstance(v, int) and not 0 <= v < 1 << (8 * size):
                it.throw(ValueError, 'struct.error: argument out of range')
            out += tuple(it.byte_items(_to_bytes(it, v, size, 'big' if order in '>!' else 'little')))
    if vals:
        it.throw(ValueError, 'struct.error: wrong number of items')
    return it.mk_bytes(out)


_SZ = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8, 'b': 1, 'h': 2, 'i': 4, 'l': 4, 'q': 8}


def _struct_tokens(it, fmt):
    import re
    if not isinstance(fmt, str):
        it.unsupported('struct format')
    order = '<'
    f = fmt.replace(' ', '')
    if f and f[0] in '<>!=@':
        order = {'=': '<', '@': '<'}.get(f[0], f[0])
        f = f[1:]
    toks = []
    for c, ch in re.findall(r'(\d*)([a-zA-Z])', f):
        if ch not in _SZ and ch not in 'sx':
            it.unsupported('struct format %s' % fmt)
        toks.append((int(c) if c else 1, ch))
    return toks, order


def _struct_unpack(it, fmt, data):
    toks, order = _struct_tokens(it, fmt)
    b = blike(it, data)
    need = sum(c if ch in 'sx' else c * _SZ[ch] for c, ch in toks)
    if len(b) != need:
        it.throw(ValueError, 'struct.error: unpack requires a buffer of %d bytes' % need)
    out = []
    pos = 0
    for cnt, ch in toks:
        if ch == 's':
            out.append(it.mk_bytes(b[pos:pos + cnt]))
            pos += cnt
            continue
        if ch == 'x':
            pos += cnt
            continue
        for _ in range(cnt):
            if ch.islower():
                it.unsupported('signed struct field')
            out.append(it.int_from_bytes(it.mk_bytes(b[pos:pos + _SZ[ch]]), 'big' if order in '>!' else 'little'))
            pos += _SZ[ch]
    return tuple(out)


def _reduce(it, f, seq, *init):
    l = it.iterate(seq)
    if init:
        acc = init[0]
    else:
        if not l:
            it.throw(TypeError, 'reduce() of empty iterable with no initial value')
        acc, l = l[0], l[1:]
    for v in l:
        acc = it.call(f, [acc, v], {})
    return acc


def _lru(it, f):
    cache = {}

    def run(*a, **k):
        key = (tuple(it.canon(x) if not (isinstance(x, Ref) and it.kind(x) == 'obj') else ('obj', x.addr) for x in a),
               tuple(sorted((n, it.canon(x)) for n, x in k.items())))
        if key in cache:
            v = cache[key]
            ok = all(x in it.heap for x in it.reachable(v)) if isinstance(v, (Ref, tuple)) and _reach_ok(it, v) else True
            if ok and _reach_ok(it, v):
                return v
        v = it.call(f, list(a), k)
        cache[key] = v
        for x in it.reachable(v):
            it.owner.setdefault(x, 'module:cache of %s' % getattr(f, 'qual', '?'))
        return v
    return Builtin('cached:' + getattr(f, 'name', '?'), run)


def _reach_ok(it, v):
    try:
        it.reachable(v)
        return True
    except KeyError:
        return False


def stub(it, mod, name):
    full = mod + '.' + name
    if full in ('os.urandom', 'secrets.token_bytes'):
        return Builtin('urandom', lambda n=None: urandom(it, n))
    if full == 'secrets.randbelow':
        return Builtin('randbelow', lambda n: below(it, n))
    if full == 'secrets.randbits':
        return Builtin('randbits', lambda n: randbits(it, n))
    if mod == 'random':
        if name in ('SystemRandom', 'Random'):
            kind = 'rand' if name == 'SystemRandom' else 'prng'
            return Builtin(name, lambda *a: RandomSource(kind))
        return random_source(it, name, 'prng')
    if full == 'secrets.SystemRandom':
        return Builtin(name, lambda *a: RandomSource('rand'))
    if full == 'secrets.compare_digest' or full == 'hmac.compare_digest':
        def cd(a, b):
            if it.byte_items(a) is None or it.byte_items(b) is None:
                if not (isinstance(a, (str, SStr)) and isinstance(b, (str, SStr))):
                    it.throw(TypeError, 'unsupported operand types')
            return it.equal_(a, b)
        return Builtin('compare_digest', cd)
    if full == 'copy.deepcopy':
        return Builtin('deepcopy', lambda v, memo=None: it.deepcopy(v))
    if full == 'copy.copy':
        return Builtin('copy', lambda v: it.shallow(v))
    if mod == 'struct':
        if name == 'pack':
            return Builtin('pack', lambda f, *v: _struct_pack(it, f, *v))
        if name == 'unpack':
            return Builtin('unpack', lambda f, d: _struct_unpack(it, f, d))
        if name == 'unpack_from':
            def uf(f, d, offset=0):
                toks, _ = _struct_tokens(it, f)
                need = sum(c if ch in 'sx' else c * _SZ[ch] for c, ch in toks)
                return _struct_unpack(it, f, it.mk_bytes(blike(it, d)[offset:offset + need]))
            return Builtin('unpack_from', uf)
        if name == 'pack_into':
            def pi(f, buf, off, *v):
                b = it.byte_items(_struct_pack(it, f, *v))
                it.setitem(buf, slice(off, off + len(b)), it.mk_bytes(b))
            return Builtin('pack_into', pi)
        if name == 'calcsize':
            return Builtin('calcsize', lambda f: _struct.calcsize(f))
        if name == 'error':
            return ValueError
    if mod == 'functools':
        if name == 'reduce':
            return Builtin('reduce', lambda f, s, *i: _reduce(it, f, s, *i))
        if name == 'partial':
            return Builtin('partial', lambda f, *a, **k: Builtin(
                'partial', lambda *b, **l: it.call(f, list(a) + list(b), {**k, **l})))
        if name == 'wraps':
            return Builtin('wraps', lambda f, **k: Builtin('wraps_inner', lambda g: g))
        if name in ('lru_cache',):
            def lru(f=None, typed=False, maxsize=128):
                if isinstance(f, (Func, StaticM)):
                    return _lru(it, f.f if isinstance(f, StaticM) else f)
                return Builtin('lru_inner', lambda g: _lru(it, g))
            return Builtin('lru_cache', lru)
        if name == 'cache':
            return Builtin('cache', lambda f: _lru(it, f))
        if name == 'total_ordering':
            return Builtin('total_ordering', lambda c: c)
    if mod == 'itertools':
        return _itertools(it, name)
    if mod == 'operator':
        return _operator(it, name)
    if mod == 'binascii':
        if name in ('hexlify', 'b2a_hex'):
            def hx(b):
                c = concrete_bytes(it, b)
                if c is not None:
                    return c.hex().encode()
                it.unsupported('hexlify of unknown bytes')
            return Builtin('hexlify', hx)
        if name in ('unhexlify', 'a2b_hex'):
            return Builtin('unhexlify', lambda s: it.call(it.getattr(bytes, 'fromhex'), [s], {}))
    if mod == 'math':
        if name in ('pi', 'e', 'inf'):
            return getattr(math, name)
        if name == 'ceil':
            return Builtin('ceil', lambda v: math.ceil(v) if isinstance(v, (int, float)) else it.unsupported('ceil'))
        fn = getattr(math, name, None)
        if fn is not None:
            def mf(*a):
                if all(isinstance(x, (int, float)) for x in a):
                    try:
                        return fn(*a)
                    except (ValueError, OverflowError, TypeError) as ex:
                        it.throw(type(ex), str(ex))
                it.unsupported('math.%s of unknown values' % name)
            return Builtin(name, mf)
    if mod == 'warnings' or mod == 'logging' or mod == 'gc':
        return Builtin(name, lambda *a, **k: None)
    if mod == 'sys':
        if name == 'byteorder':
            return 'little'
        if name == 'version_info':
            return VersionInfo((3, 12, 0, 'final', 0))
        if name == 'maxsize':
            return (1 << 63) - 1
    if mod == 'collections' and name == 'OrderedDict':
        return dict
    if mod == 'types' and name == 'MappingProxyType':
        return Builtin('MappingProxyType', lambda d: d)
    if mod == 'typing' and name == 'TYPE_CHECKING':
        return False
    if mod == 'typing' and name == 'cast':
        return Builtin('cast', lambda t, v: v)
    if mod == 'contextlib' and name == 'suppress':
        it.unsupported('contextlib.suppress')
    if mod == 'string':
        import string
        if hasattr(string, name):
            return getattr(string, name)
    if mod == 'builtins':
        return it.builtin_name(name)
    if mod in ('typing', 'abc', 'collections.abc', 'typing_extensions', 'numbers', 'collections', 'types'):
        return Opaque(name)
    if mod == 'os' and name == 'path' or mod == '__future__':
        return Opaque(name)
    return Opaque(full)


def _itertools(it, name):
    if name == 'chain':
        return Builtin('chain', lambda *s: IterVal([v for x in s for v in it.iterate(x)]))
    if name == 'zip_longest':
        def zl(*s, fillvalue=None):
            ls = [it.iterate(x) for x in s]
            n = max((len(l) for l in ls), default=0)
            return IterVal([tuple(l[i] if i < len(l) else fillvalue for l in ls) for i in range(n)])
        return Builtin(name, zl)
    if name == 'product':
        def prod(*s, repeat=1):
            import itertools
            return IterVal(list(itertools.product(*[it.iterate(x) for x in s], repeat=repeat)))
        return Builtin(name, prod)
    if name == 'repeat':
        return Builtin(name, lambda v, n=None: InfIter(lambda i: v) if n is None else IterVal([v] * n))
    if name == 'cycle':
        def cyc(s):
            l = it.iterate(s)
            if not l:
                return IterVal([])
            return InfIter(lambda i: l[i % len(l)])
        return Builtin(name, cyc)
    if name == 'count':
        return Builtin(name, lambda a=0, s=1: InfIter(lambda i: a + i * s))
    if name == 'islice':
        def isl(s, *a):
            sl = slice(*a)
            if isinstance(s, InfIter):
                stop = sl.stop
                if stop is None:
                    it.unsupported('endless islice')
                return IterVal(s.take(stop)[sl])
            r = IterVal(it.iterate(s, True)[sl])
            if getattr(s, 'endless', None) is not None and (sl.stop is None or sl.stop > len(s.items)):
                r.endless = s.endless
            return r
        return Builtin(name, isl)
    if name == 'accumulate':
        def acc(s, f=None, initial=None):
            import ast
            l = it.iterate(s)
            out = []
            if initial is not None:
                out.append(initial)
            for v in l:
                if not out:
                    out.append(v)
                else:
                    out.append(it.call(f, [out[-1], v], {}) if f else it.binop(ast.Add(), out[-1], v))
            return IterVal(out)
        return Builtin(name, acc)
    if name == 'starmap':
        return Builtin(name, lambda f, s: IterVal([it.call(f, list(it.iterate(t)), {}) for t in it.iterate(s)]))
    if name == 'takewhile':
        def tw(f, s):
            out = []
            for v in it.iterate(s):
                if not it.concrete_truth(it.call(f, [v], {})):
                    break
                out.append(v)
            return IterVal(out)
        return Builtin(name, tw)
    it.unsupported('itertools.%s' % name)


def _operator(it, name):
    import ast
    ops = {'xor': 'BitXor', 'and_': 'BitAnd', 'or_': 'BitOr', 'add': 'Add', 'sub': 'Sub', 'mul': 'Mult',
           'mod': 'Mod', 'floordiv': 'FloorDiv', 'lshift': 'LShift', 'rshift': 'RShift', 'pow': 'Pow',
           'concat': 'Add', 'ixor': 'BitXor', 'iadd': 'Add'}
    if name in ops:
        cls = getattr(ast, ops[name])
        return Builtin(name, lambda a, b: it.binop(cls(), a, b))
    cmpo = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'is_': 'Is'}
    if name in cmpo:
        cls = getattr(ast, cmpo[name])
        return Builtin(name, lambda a, b: it.compare(cls(), a, b))
    if name == 'itemgetter':
        return Builtin(name, lambda *k: Builtin('getter', lambda o: it.getitem(o, k[0]) if len(k) == 1 else
                                                 tuple(it.getitem(o, x) for x in k)))
    if name == 'attrgetter':
        return Builtin(name, lambda k: Builtin('getter', lambda o: it.getattr(o, k)))
    if name == 'not_':
        def nt(v):
            c = it.truth(v)
            return it.mkbool(c_not(c.expr)) if isinstance(c, SBool) else not c
        return Builtin(name, nt)
    if name == 'index':
        return Builtin(name, lambda v: v)
    it.unsupported('operator.%s' % name)

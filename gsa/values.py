"""Abstract values."""
from . import forms as F
from . import zpoly as Z


class SInt:
    """Non-negative integer given by bit forms (LSB first)."""
    __slots__ = ('bits', 'prov', 'zset')

    def __init__(self, bits, prov=None, zset=None):
        self.bits = bits
        self.prov = prov
        self.zset = zset

    def __repr__(self):
        return 'SInt<%s>' % Z.show_bits(self.bits)


class ZInt:
    """Integer given by a polynomial (zpoly)."""
    __slots__ = ('poly',)

    def __init__(self, poly):
        self.poly = poly

    def __repr__(self):
        return 'ZInt<%s>' % Z.show(self.poly)


class SBool:
    __slots__ = ('expr',)

    def __init__(self, expr):
        self.expr = expr

    def __repr__(self):
        return 'SBool<%s>' % show_cond(self.expr)


class SBytes:
    """Immutable byte string with at least one non-constant byte."""
    __slots__ = ('el',)

    def __init__(self, el):
        self.el = el

    def __repr__(self):
        return 'SBytes[%d]' % len(self.el)


class SStr:
    """String about which only a name is known (e.g. hexadecimal of bytes)."""
    __slots__ = ('key',)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return 'SStr%r' % (self.key[0],)


class Ref:
    __slots__ = ('addr',)

    def __init__(self, addr):
        self.addr = addr

    def __repr__(self):
        return 'Ref(%d)' % self.addr

    def __eq__(self, other):
        return isinstance(other, Ref) and other.addr == self.addr

    def __hash__(self):
        return hash(('ref', self.addr))


class ObjPayload:
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields


class SymSeq:
    """Sequence of unknown length produced from known inputs."""
    __slots__ = ('key', 'elem')

    def __init__(self, key, elem):
        self.key = key
        self.elem = elem


class Func:
    __slots__ = ('node', 'module', 'closure', 'name', 'qual', 'defaults', 'kwdefaults', 'owner',
                 'is_gen', 'locals', 'globals_decl')

    def __repr__(self):
        return '<func %s>' % self.qual


class ClassVal:
    def __init__(self, name, bases, ns, module):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.mro = None
        self.site = None

    def __repr__(self):
        return '<class %s>' % self.name


class Bound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_


class BuiltinMethod:
    __slots__ = ('recv', 'name')

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class Builtin:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class PropVal:
    __slots__ = ('fget', 'fset', 'fdel')

    def __init__(self, fget, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticM:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ClassM:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ModuleVal:
    def __init__(self, name, path=None):
        self.name = name
        self.path = path
        self.ns = {}

    def __repr__(self):
        return '<module %s>' % self.name


class StubModule:
    def __init__(self, name):
        self.name = name


class Opaque:
    """Typing objects and other values without semantics here."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<opaque %s>' % self.name


class SuperVal:
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class RangeVal:
    __slots__ = ('r',)

    def __init__(self, r):
        self.r = r


class IterVal:
    """A one-pass iterator over already computed values."""

    endless = None             # why there are more values than those computed

    def __init__(self, items):
        self.items = list(items)
        self.pos = 0


# ------------------------------------------------------------------ conditions
TRUE, FALSE = ('true',), ('false',)


def c_not(e):
    if e == TRUE:
        return FALSE
    if e == FALSE:
        return TRUE
    if e[0] == 'not':
        return e[1]
    return ('not', e)


def c_and(es):
    out = []
    for e in es:
        if e == FALSE:
            return FALSE
        if e == TRUE:
            continue
        if e[0] == 'and':
            out.extend(x for x in e[1] if x not in out)
        elif e not in out:
            out.append(e)
    for e in out:
        if c_not(e) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return ('and', tuple(sorted(out, key=_order)))


def _order(e):
    """A total order of conditions that does not write long forms out."""
    if isinstance(e, tuple):
        return '(%s)' % ','.join([_order(x) for x in e])
    if type(e) is int:
        return '%x' % (e if -1 << 64 < e < 1 << 64 else hash(e))
    return repr(e)


def c_or(es):
    return c_not(c_and([c_not(e) for e in es]))


def c_bit(f):
    if f == 0:
        return FALSE
    if f == 1:
        return TRUE
    if f & 1:
        return ('not', ('bit', f ^ 1))
    return ('bit', f)


def show_cond(e, d=0):
    if d > 3:
        return '..'
    if e[0] == 'not':
        return 'not(%s)' % show_cond(e[1], d + 1)
    if e[0] == 'and':
        return '(' + ' and '.join(show_cond(x, d + 1) for x in e[1][:5]) + ')'
    if e[0] == 'lt0':
        return '%s < 0' % Z.show(e[1])
    if e[0] == 'eq0':
        return '%s == 0' % Z.show(e[1])
    if e[0] == 'eqmod':
        return '%s == 0 mod %s' % (Z.show(e[1]), Z.show(e[2])[:12])
    if e[0] == 'iszero':
        return 'all-zero<%s>' % Z.show_bits(e[1])
    if e[0] == 'bit':
        return 'bit<%s>' % Z.show_bits((e[1],))
    return str(e[0])


# ---------------------------------------------------------------- int helpers
def mk_int(bits, prov=None, zset=None):
    """Value for non-negative bits (LSB first)."""
    bits = list(bits)
    while bits and bits[-1] == 0:
        bits.pop()
    for f in bits:
        if f > 1:
            return SInt(tuple(bits), prov, zset)
    return sum(f << i for i, f in enumerate(bits))


def const_bits(n):
    return tuple((n >> i) & 1 for i in range(n.bit_length()))


def bits_of(v):
    """Bit forms of a value known to be a non-negative integer, else None."""
    if v is True or v is False:
        return (1,) if v else ()
    if isinstance(v, int):
        return const_bits(v) if v >= 0 else None
    if isinstance(v, SInt):
        return v.bits
    if isinstance(v, SBool):
        return (form_of_cond(v.expr),)
    if isinstance(v, ZInt):
        lo, hi = Z.interval(v.poly)
        if lo is not None and lo >= 0 and hi is not None:
            return tuple(zbit(v.poly, i) for i in range(hi.bit_length()))
    return None


def zbit(poly, i):
    """Form of bit i of a non-negative integer poly."""
    if len(poly) == 1 and poly[0][1] == 1 and len(poly[0][0]) == 1:
        k = Z.ZKEYS[poly[0][0][0]]
        if k[0] == 'zb':
            return k[1][i] if i < len(k[1]) else 0
    c = Z.as_const(poly)
    if c is not None:
        return (c >> i) & 1
    lo, hi = Z.interval(poly)
    if lo is not None and lo >= 0 and hi is not None and (hi >> i) == 0:
        return 0
    return F.atom(('zbit', poly, i))


def bits_to_poly(bits):
    """The integer with these bits as a polynomial."""
    bits = tuple(bits)
    n = len(bits)
    while n and bits[n - 1] == 0:
        n -= 1
    bits = bits[:n]
    if all(f in (0, 1) for f in bits):
        return Z.const(sum(f << i for i, f in enumerate(bits)))
    poly = _recover_zbits(bits)
    if poly is not None:
        return poly
    # shifted left by k zero bits
    k = 0
    while bits[k] == 0:
        k += 1
    if k:
        return Z.mul(Z.const(1 << k), bits_to_poly(bits[k:]))
    return Z.zatom(('zb', bits), 0, (1 << n) - 1)


def _recover_zbits(bits):
    p = None
    for i, f in enumerate(bits):
        if f & 1 or f & (f - 1):
            return None
        k = F.KEYS[f.bit_length() - 1]
        if k[0] != 'zbit' or k[2] != i or (p is not None and k[1] != p):
            return None
        p = k[1]
    lo, hi = Z.interval(p)
    if lo is None or lo < 0 or hi is None or hi >> len(bits):
        return None
    return p


def to_poly(v):
    if isinstance(v, bool):
        return Z.const(int(v))
    if isinstance(v, int):
        return Z.const(v)
    if isinstance(v, SInt):
        return bits_to_poly(v.bits)
    if isinstance(v, ZInt):
        return v.poly
    if isinstance(v, SBool):
        return bits_to_poly((form_of_cond(v.expr),))
    return None


def from_poly(p):
    c = Z.as_const(p)
    if c is not None:
        return c
    if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
        k = Z.ZKEYS[p[0][0][0]]
        if k[0] == 'zb':
            return SInt(k[1])
    return ZInt(p)


def form_of_cond(e):
    if e == TRUE:
        return 1
    if e == FALSE:
        return 0
    if e[0] == 'bit':
        return e[1]
    if e[0] == 'not':
        return form_of_cond(e[1]) ^ 1
    if e[0] == 'iszero' and len(e[1]) == 1:
        return e[1][0] ^ 1
    return F.atom(('cond', e))


def zero_cond(v):
    """Condition `v == 0` for an integer value."""
    if isinstance(v, int):
        return TRUE if v == 0 else FALSE
    if isinstance(v, SBool):
        return c_not(v.expr)
    if isinstance(v, ZInt):
        return eq0_cond(v.poly)
    fs = v.zset if v.zset is not None else frozenset(v.bits)
    return allzero_cond(fs)


def allzero_cond(fs):
    fs = set(fs)
    fs.discard(0)
    if 1 in fs:
        return FALSE
    if not fs:
        return TRUE
    # bits of one integer expression compared with another one / a constant
    z = _zbits_eq(fs)
    if z is not None:
        return z
    if len(fs) == 1:
        return c_not(c_bit(next(iter(fs))))
    for f in fs:
        if f ^ 1 in fs:
            return FALSE
    return ('iszero', tuple(sorted(fs)))


def _zbits_eq(fs):
    """fs = the set of xors of bit i of P and bit i of Q: condition P == Q."""
    polys = None
    consts = {}
    for f in fs:
        at = F.atoms_of(f)
        ks = []
        for i in at:
            k = F.KEYS[i]
            if k[0] != 'zbit':
                return None
            ks.append(k)
        if len(ks) == 1:
            key = (ks[0][1],)
            if polys is not None and polys[0] != key[0] and ks[0][1] not in polys:
                return None
            if polys is None:
                polys = key
            consts[ks[0][2]] = (ks[0][1], f & 1)
        elif len(ks) == 2:
            if ks[0][2] != ks[1][2] or f & 1:
                return None
            key = tuple(sorted((ks[0][1], ks[1][1])))
            if polys is not None and not set(polys) <= set(key):
                return None
            polys = key
            consts[ks[0][2]] = key
        else:
            return None
    if polys is None:
        return None
    n = 0
    for p in polys:
        lo, hi = Z.interval(p)
        if lo is None or lo < 0 or hi is None:
            return None
        n = max(n, hi.bit_length())
    if len(polys) == 1:
        c = 0
        for i in range(n):
            if i not in consts:
                return None
            c |= consts[i][1] << i
        return eq0_cond(Z.sub(polys[0], Z.const(c)))
    for i in range(n):
        if i not in consts:
            # bit i of both must be known zero
            if any(zbit(p, i) != 0 for p in polys):
                return None
    return eq0_cond(Z.sub(polys[0], polys[1]))


def eq0_cond(p):
    c = Z.as_const(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    lo, hi = Z.interval(p)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    p = _canon_sign(p)
    # difference of two residues of the same modulus
    mods = {}
    ok = True
    for m, cf in p:
        if len(m) == 1 and Z.ZKEYS[m[0]][0] == 'mod' and cf in (1, -1):
            mods.setdefault(Z.ZKEYS[m[0]][2], []).append((cf, Z.ZKEYS[m[0]][1]))
        elif m == ():
            mods.setdefault(None, []).append(cf)
        elif len(m) == 1 and cf in (1, -1):
            mods.setdefault('plain', []).append((cf, ((m, 1),)))
        else:
            ok = False
    real = [k for k in mods if k is not None and k != 'plain']
    if ok and len(real) == 1:
        md = real[0]
        pos = [x for x in mods[md] if x[0] == 1]
        ng = [x for x in mods[md] if x[0] == -1]
        extra = list(mods.get('plain', []))
        cst = mods.get(None, [0])[0]
        mlo, mhi = Z.interval(md)
        # every side must be a residue in [0, m)
        sides = []
        total = len(pos) + len(ng) + len(extra) + (1 if cst else 0)
        inrange = True
        for cf, q in extra:
            l, h = Z.interval(q)
            mc = Z.as_const(md)
            if mc is None or l is None or l < 0 or h is None or h >= mc:
                inrange = False
        if cst:
            mc = Z.as_const(md)
            if mc is None or abs(cst) >= mc:
                # constant 1 is a residue of any modulus above one
                inrange = inrange and abs(cst) == 1
        npos = len(pos) + sum(1 for cf, _ in extra if cf == 1) + (1 if cst > 0 else 0)
        nneg = len(ng) + sum(1 for cf, _ in extra if cf == -1) + (1 if cst < 0 else 0)
        if inrange and total <= 2 and npos <= 1 and nneg <= 1:
            q = Z.const(cst)
            for cf, x in pos + ng + extra:
                q = Z.add(q, x, cf)
            q = Z.canon_mod(q, md)
            if q == ():
                return TRUE
            q = _canon_mod_sign(q, md)
            return ('eqmod', q, md)
    return ('eq0', p)


def _canon_sign(p):
    if p and p[0][1] < 0:
        return Z.neg(p)
    return p


def _canon_mod_sign(q, m):
    mc = Z.as_const(m)
    if mc is None:
        return _canon_sign(q)
    a = Z.reduce_coefs(q, m)
    b = Z.reduce_coefs(Z.neg(q), m)
    return min(a, b)


def lt0_cond(p):
    """Condition p < 0."""
    c = Z.as_const(p)
    if c is not None:
        return TRUE if c < 0 else FALSE
    lo, hi = Z.interval(p)
    if lo is not None and lo >= 0:
        return FALSE
    if hi is not None and hi < 0:
        return TRUE
    # p < 0  <=>  not (-p - 1 < 0); canonical orientation
    q = Z.sub(Z.neg(p), Z.const(1))
    if _orient(p) <= _orient(q):
        return ('lt0', p)
    return ('not', ('lt0', q))


def _orient(p):
    lead = next((c for m, c in p if m != ()), 0)
    return (0 if lead > 0 else 1, p)

"""Concretisation of abstract terms under an assignment of the inputs.

Used for two things only: to confirm that two abstract values with different
normal forms really denote different functions (a separating assignment), so
that an incompleteness of the normal form never becomes an alarm; and to show
such an assignment in a report.  It evaluates terms of the abstract domain,
never the analysed program.
"""
import hashlib
import random

from . import forms as F
from . import zpoly as Z


POINTS = []       # hook: coordinates of points (gsa/group.py)


class Depth(Exception):
    pass


SHAPES = {'zeros first': 'L', 'zeros last': 'E', 'all ones': '1', 'mostly ones': 'h', 'mostly zeros': 'l'}


class Valuation:
    sizes = {}          # length of the inputs

    def __init__(self, seed, style='random', forced=None):
        self.rng = random.Random(seed)
        self.seed = seed
        self.style = style
        self.forced = forced or {}
        self.bits = 1           # mask of the atom values; bit 0 is the constant 1
        self.done = 1           # atoms < done evaluated
        self.need = None
        self.z = {}
        self.names = {}

    # inputs
    def _name_style(self, name):
        s = self.names.get(name)
        if s is None:
            if self.style == 'random':
                s = 'r'
            elif self.style in SHAPES:
                s = SHAPES[self.style]
            elif self.style == 'not zero':
                s = self.rng.choice('rr1hltTabLE')
            else:
                s = self.rng.choice('rr01hltTab')
            self.names[name] = s
        return s

    def _input(self, name, i):
        s = self._name_style(name)
        h = hashlib.blake2b(repr((self.seed, name, i)).encode(), digest_size=8).digest()
        r = h[0] & 1
        if s == 'r':
            return r
        if s == '0':
            return 0
        if s == '1':
            return 1
        g = hashlib.blake2b(repr((self.seed, name, i // 8)).encode(), digest_size=8).digest()[0]
        if s == 'h':
            return r if g & 3 == 0 else 1
        if s == 'l':
            return r if g & 3 == 0 else 0
        if s == 't':
            return 1 if h[1] & 15 else 0
        if s == 'T':
            return 0 if h[1] & 15 else 1
        if s in 'LE':     # zero bytes at the beginning, at the end
            n = i // 8 if s == 'L' else self.sizes.get(name, 1) - 1 - i // 8
            return 0 if n < 2 else r
        if s == 'a':      # one byte random, others 0xff
            return r if (i // 8) == self.seed % 7 else 1
        return r if (i // 8) == self.seed % 7 else 0

    def _hash_bits(self, *key):
        h = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=16).digest()
        return int.from_bytes(h, 'big')

    def form(self, f):
        n = f.bit_length()
        if n > self.done:
            self._upto(n)
        return (f & self.bits).bit_count() & 1

    def _upto(self, n):
        bits, KEYS = self.bits, F.KEYS
        i = self.done
        while i < n:
            k = KEYS[i]
            t = k[0]
            if t == 'in':
                v = self.forced.get(i)
                if v is None:
                    v = self._input(k[1], k[2])
            elif t == 'm':
                v = 1
                for a in k[1]:
                    if not (bits >> a) & 1:
                        v = 0
                        break
            elif t == 'and':
                v = (k[1] & bits).bit_count() & (k[2] & bits).bit_count() & 1
            elif t == 'tt':
                xs = F.XS[k[1]]
                idx = 0
                for j, x in enumerate(xs):
                    if (x & bits).bit_count() & 1:
                        idx |= 1 << j
                v = (F._BASIS[len(xs)][1][k[2]] >> idx) & 1
            elif t == 'sb':
                s = k[2]
                c = k[1]
                while c:
                    prev, p, l = F._CHAINS[c]
                    s += sum((x & bits).bit_count() & 1 for x in l) << p
                    c = prev
                v = (s >> k[3]) & 1
            else:
                self.bits, self.done = bits, i
                v = self._other(k, i)
                bits = self.bits
            if v:
                bits |= 1 << i
            i += 1
            self.bits, self.done = bits, i
        self.bits, self.done = bits, i

    def _other(self, k, i):
        t = k[0]
        if t == 'uf':
            name, kid, j = k[1], k[2], k[3]
            from . import summ
            h = self.z.get(('uf', name, kid))
            if h is None:
                key = summ.uf_key(kid)
                h = hashlib.shake_256(repr((self.seed, name, self.canon(key))).encode()).digest(512)
                self.z[('uf', name, kid)] = h
            return (h[(j // 8) % 512] >> (j & 7)) & 1
        if t == 'cond':
            return 1 if self.cond(k[1]) else 0
        if t == 'zbit':
            return (self.poly(k[1]) >> k[2]) & 1
        return self._hash_bits(k) & 1

    def intbits(self, bits):
        v = 0
        for i, f in enumerate(bits):
            if self.form(f):
                v |= 1 << i
        return v

    def canon(self, c):
        if isinstance(c, tuple):
            if c and c[0] == 'i' and len(c) == 2 and isinstance(c[1], tuple):
                return self.intbits(c[1])
            if c and c[0] == 'z' and len(c) == 2 and isinstance(c[1], tuple):
                return self.poly(c[1])
            if c and c[0] == 'b' and len(c) == 2 and isinstance(c[1], tuple):
                return self.cond(c[1])
            return tuple(self.canon(x) for x in c)
        return c

    # integers
    def poly(self, p):
        s = 0
        for m, c in p:
            v = c
            for a in m:
                v *= self.zat(a)
            s += v
        return s

    def zat(self, a):
        v = self.z.get(a)
        if v is None:
            v = self._zat(a)
            self.z[a] = v
        return v

    def _zat(self, a):
        k = Z.ZKEYS[a]
        t = k[0]
        if t == 'zb':
            return self.intbits(k[1])
        if t == 'mod':
            m = self.poly(k[2])
            return self.poly(k[1]) % m if m else 0
        if t == 'fdiv':
            m = self.poly(k[2])
            return self.poly(k[1]) // m if m else 0
        if t == 'inv':
            m = self.poly(k[2])
            try:
                return pow(self.poly(k[1]), -1, m)
            except ValueError:
                return 0
        if t == 'zmux':
            return self.poly(k[2]) if self.cond(k[1]) else self.poly(k[3])
        if t == 'pt' and POINTS:
            return POINTS[0](self, k)
        lo, hi = Z.ZRANGE[a]
        h = int.from_bytes(hashlib.shake_256(repr((self.seed, k)).encode()).digest(80), 'big')
        st = self._name_style(('z', a))
        if lo is None and hi is None:
            lo, hi = -(1 << 64), 1 << 64
        elif lo is None:
            lo = hi - (1 << 64)
        elif hi is None:
            hi = lo + (1 << 64)
        if st == '0':
            return lo
        if st == '1':
            return hi
        if st in 'lT':
            return lo + h % min(hi - lo + 1, 8)
        return lo + h % (hi - lo + 1)

    def cond(self, e):
        t = e[0]
        if t == 'true':
            return True
        if t == 'false':
            return False
        if t == 'not':
            return not self.cond(e[1])
        if t == 'and':
            return all(self.cond(x) for x in e[1])
        if t == 'bit':
            return bool(self.form(e[1]))
        if t == 'iszero':
            return not any(self.form(f) for f in e[1])
        if t == 'eq0':
            return self.poly(e[1]) == 0
        if t == 'eqmod':
            m = self.poly(e[2])
            return (self.poly(e[1]) % m if m else 1) == 0
        if t == 'lt0':
            return self.poly(e[1]) < 0
        return bool(self._hash_bits(e) & 1)


def raw_inputs(form):
    """True if the form is a polynomial of input bits only (a complete normal form)."""
    for i in F.atoms_of(form):
        k = F.KEYS[i]
        if k[0] == 'in':
            continue
        if k[0] == 'm' and all(F.KEYS[a][0] == 'in' for a in k[1]):
            continue
        return False
    return True


def mono_inputs(form):
    """Assignments that make one of the monomials true."""
    out = []
    for i in F.atoms_of(form)[:4]:
        k = F.KEYS[i]
        if k[0] == 'in':
            out.append({i: 1})
        elif k[0] == 'm':
            out.append({a: 1 for a in k[1] if F.KEYS[a][0] == 'in'})
    return out


def facts_hold(val, facts):
    for e, v in facts.items():
        try:
            if val.cond(e) != v:
                return False
        except (ZeroDivisionError, OverflowError):
            return False
    return True


_VALS = {}
LAST = [None]       # the valuation of the last difference


def assignment(v):
    """The inputs of a valuation, independent of the numbering of atoms."""
    if v is None:
        return (0, 'random', {})
    return (v.seed, v.style, {F.KEYS[i][1:]: b for i, b in v.forced.items() if F.KEYS[i][0] == 'in'})


class Binding:
    """Inputs as constants, by an assignment."""

    def __init__(self, a):
        self.v = Valuation(a[0], a[1])
        self.forced = a[2]

    def byte(self, name, i):
        r = 0
        for j in range(8):
            b = self.forced.get((name, 8 * i + j))
            if b is None:
                b = self.v._input(name, 8 * i + j)
            r |= b << j
        return r


def valuation(seed, style):
    n = (seed, style)
    v = _VALS.get(n)
    if v is None:
        v = _VALS[n] = Valuation(seed, style)
    return v


def separate(test, facts=None, tries=40, forms=()):
    """Search an assignment satisfying the facts on which test(valuation) is true."""
    facts = facts or {}
    for f in forms:
        for forced in mono_inputs(f):
            for s in range(2):
                v = Valuation(1000 + s, 'random', forced)
                if facts_hold(v, facts) and test(v):
                    return v
    for s in range(tries):
        v = valuation(s, 'random' if s < 8 else 'mixed')
        if facts_hold(v, facts) and test(v):
            return v
    if facts:
        from . import search
        return search.witness(facts, test)
    return None


def diff(ca, cb):
    """Compare two canonical contents.

    Returns ('same',), ('shape', path, a, b) or ('forms', [(path, a, b)])."""
    out = []

    def num(c):
        if isinstance(c, bool):
            return None
        if isinstance(c, int):
            return True
        return isinstance(c, tuple) and len(c) == 2 and c[0] in ('i', 'z', 'b') and isinstance(c[1], tuple)

    def walk(a, b, path):
        if a == b:
            return None
        if hasattr(a, 'bits'):
            a = ('i', a.bits)
        if hasattr(b, 'bits'):
            b = ('i', b.bits)
        if isinstance(a, bool) or isinstance(b, bool) or \
                (isinstance(a, tuple) and a and a[0] == 'b') or (isinstance(b, tuple) and b and b[0] == 'b'):
            bo = lambda c: isinstance(c, bool) or (isinstance(c, tuple) and len(c) == 2 and c[0] == 'b')
            if bo(a) and bo(b):
                if isinstance(a, bool) and isinstance(b, bool):
                    return ('shape', path, a, b)
                out.append((path, a, b))
                return None
            return ('shape', path, a, b)
        if num(a) and num(b):
            if isinstance(a, int) and isinstance(b, int):
                return ('shape', path, a, b)
            out.append((path, a, b))
            return None
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for i, (x, y) in enumerate(zip(a, b)):
                r = walk(x, y, path + (i,))
                if r is not None:
                    return r
            return None
        return ('shape', path, a, b)
    r = walk(ca, cb, ())
    if r is not None:
        return r
    if not out:
        return ('same',)
    return ('forms', out)


def value_of(v, c):
    if isinstance(c, bool):
        return c
    if isinstance(c, int):
        return c
    return v.canon(c)


def reset():
    _VALS.clear()


def compare(ca, cb, facts=None):
    """('same', None) | ('different', reason) | ('unknown', reason)."""
    d = diff(ca, cb)
    if d[0] == 'same':
        return 'same', None
    if d[0] == 'shape':
        LAST[0] = None
        if facts:
            v = LAST[0] = separate(lambda v: True, facts)
            if v is None:
                return 'unknown', 'different shape on a path whose reachability is not shown'
        return 'different', 'shape %s: %s / %s' % (path_text(d[1]), short(d[2]), short(d[3]))
    pairs = d[1]
    hints = []
    for path, a, b in pairs[:3]:
        if isinstance(a, int):
            a = ('i', tuple((a >> i) & 1 for i in range(a.bit_length())))
        if isinstance(b, int):
            b = ('i', tuple((b >> i) & 1 for i in range(b.bit_length())))
        if a[0] == 'i' and b[0] == 'i':
            n = max(len(a[1]), len(b[1]))
            for i in range(n):
                x = a[1][i] if i < len(a[1]) else 0
                y = b[1][i] if i < len(b[1]) else 0
                if x != y:
                    hints.append(x ^ y)
    hit = []

    def test(v):
        for path, a, b in pairs:
            if value_of(v, a) != value_of(v, b):
                hit[:] = [path, value_of(v, a), value_of(v, b)]
                return True
        return False
    v = separate(test, facts, forms=hints[:4])
    if v is None:
        from . import search
        v = search.separating(pairs, hints, facts, test)
    if v is None:
        return 'unknown', 'normal forms differ (%d places) but no separating assignment' % len(pairs)
    LAST[0] = v
    return 'different', 'position %s: %s / %s' % (path_text(hit[0]), short(hit[1]), short(hit[2]))


def path_text(p):
    return '.'.join(str(x) for x in p) or 'value'


def short(c):
    s = repr(c)
    return s if len(s) < 80 else s[:77] + '...'

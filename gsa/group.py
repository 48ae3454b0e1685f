"""Abstract domain for points of an elliptic curve.

An integer is known to be a coordinate of i*P + j*Q, where P is the base point
and Q another point, both in general position (no relation between P and Q,
i and j taken modulo the group order).  Coordinates are atoms ('pt', c, i, j);
polynomials modulo p over them are kept reduced by the curve equation, and the
chord and tangent formulas over atoms are recognised by their normal form.
Extended Euclid and other modular inversions of the analysed program are
recognised by contract (see Inverse)."""
from . import forms as F
from . import zpoly as Z
from . import evalform as EV
from .values import *
from .values import to_poly, from_poly
from .interp import UNDEF


def inv_mod(a, m):
    return pow(a, -1, m)


class Curve:
    """Plain affine arithmetic over constants (None is the point at infinity)."""

    def __init__(self, p, a):
        self.p, self.a = p, a

    def add(self, P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        p = self.p
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            l = (3 * P[0] * P[0] + self.a) * inv_mod(2 * P[1], p)
        else:
            l = (Q[1] - P[1]) * inv_mod(Q[0] - P[0], p)
        x = (l * l - P[0] - Q[0]) % p
        return x, (l * (P[0] - x) - P[1]) % p

    def mul(self, n, P):
        if n < 0:
            n, P = -n, (P[0], -P[1] % self.p)
        R = None
        while n:
            if n & 1:
                R = self.add(R, P)
            P = self.add(P, P)
            n >>= 1
        return R


class Group:
    def __init__(self, it, p, a, b, q, base):
        self.it, self.p, self.a, self.b, self.q, self.base = it, p, a % p, b % p, q, base
        self.pm, self.qm = Z.const(p), Z.const(q)
        self.curve = Curve(p, a % p)
        self.cand = {}
        self.pairs = set()
        self.inverses = {}
        self.multiples = {}
        self.values = {}
        self.adds = 0
        self.memo = {}
        self.low = 1 << 62         # lowest heap address written since it was last raised

    # ---------------------------------------------------------- atoms
    # A label (i, j) is a pair of polynomials reduced modulo q: the point is i*P + j*Q.
    def red(self, i):
        return Z.canon_mod(Z.const(i) if isinstance(i, int) else i, self.qm)

    def neg(self, l):
        return self.red(Z.neg(l[0])), self.red(Z.neg(l[1]))

    def plus(self, a, b):
        return self.red(Z.add(a[0], b[0])), self.red(Z.add(a[1], b[1]))

    def label(self, i, j):
        """Canonical representative of +-(i, j) and the sign."""
        l = self.red(i), self.red(j)
        n = self.neg(l)
        return (l, 1) if l <= n else (n, -1)

    def x(self, i, j=0):
        l, _ = self.label(i, j)
        return Z.zatom(('pt', 'x', l[0], l[1]), 0, self.p - 1)

    def y(self, i, j=0):
        l, s = self.label(i, j)
        a = Z.zatom(('pt', 'y', l[0], l[1]), 1, self.p - 1)
        return a if s > 0 else Z.sub(self.pm, a)

    def point(self, i, j=0):
        return ZInt(self.x(i, j)), ZInt(self.y(i, j))

    # ---------------------------------------------------------- normal form
    def reduce(self, p, m):
        """y*y -> x*x*x + a*x + b."""
        if m != self.pm:
            return p
        while True:
            out = {}
            hit = False
            for mono, c in p:
                sq = None
                for n in range(len(mono) - 1):
                    if mono[n] == mono[n + 1]:
                        k = Z.ZKEYS[mono[n]]
                        if k[0] == 'pt' and k[1] == 'y':
                            sq = (n, k)
                            break
                if sq is None:
                    out[mono] = out.get(mono, 0) + c
                    continue
                hit = True
                n, k = sq
                rest = mono[:n] + mono[n + 2:]
                x = Z.zatom(('pt', 'x', k[2], k[3]), 0, self.p - 1)
                rhs = Z.add(Z.add(Z.power(x, 3), Z.mul(x, Z.const(self.a))), Z.const(self.b))
                for mm, cc in Z.mul(((rest, c),), rhs):
                    out[mm] = out.get(mm, 0) + cc
            p = Z.norm(out)
            if not hit:
                return p

    def labels_in(self, p):
        out = []
        for a in sorted(Z.zatoms_in(p)):
            k = Z.ZKEYS[a]
            if k[0] == 'pt' and (k[2], k[3]) not in out:
                out.append((k[2], k[3]))
        return out

    def enter(self, L1, L2):
        """Candidate formulas for L1 + L2 (labels)."""
        if (L1, L2) in self.pairs or (L2, L1) in self.pairs:
            return
        self.pairs.add((L1, L2))
        pm = self.pm
        x1, y1, x2, y2 = self.x(*L1), self.y(*L1), self.x(*L2), self.y(*L2)
        S = self.plus(L1, L2)
        if S == ((), ()):
            return
        if L1 == L2:
            g = Z.mul(Z.add(Z.mul(Z.const(3), Z.mul(x1, x1)), Z.const(self.a)), Z.inv(Z.mul(Z.const(2), y1), pm))
        elif x1 == x2:
            return
        else:
            g = Z.mul(Z.sub(y2, y1), Z.inv(Z.sub(x2, x1), pm))
        g = Z.canon_mod(g, pm)
        X = Z.canon_mod(Z.sub(Z.sub(Z.mul(g, g), x1), x2), pm)
        xs, ys = self.x(*S), self.y(*S)
        ents = [(X, xs)]
        for xx in (X, xs):
            ents.append((Z.canon_mod(Z.sub(Z.mul(g, Z.sub(x1, xx)), y1), pm), ys))
        ents.append((Z.canon_mod(Z.sub(Z.mul(g, Z.sub(x2, xs)), y2), pm), ys))
        for k, v in ents:
            self.cand.setdefault(k, v)
            n = Z.canon_mod(Z.neg(k), pm)
            if v == ys:
                self.cand.setdefault(n, Z.canon_neg(ys, self.p))

    def rewrite(self, q, m):
        if m != self.pm:
            return None
        r = self.cand.get(q)
        if r is not None:
            return r
        # -y is the y coordinate of the opposite point
        if len(q) == 1 and len(q[0][0]) == 1:
            k = Z.ZKEYS[q[0][0][0]]
            if k[0] == 'pt' and k[1] == 'y' and q[0][1] % self.p == self.p - 1:
                return Z.sub(self.pm, Z.zatom(k, 1, self.p - 1))
        ls = self.labels_in(q)
        if not 1 <= len(ls) <= 3:
            return None
        if not any(Z.ZKEYS[a][0] == 'inv' for mono, _ in q for a in mono):
            return None
        neg = self.neg
        for i, l in enumerate(ls):
            self.enter(l, l)
            self.enter(neg(l), neg(l))
            for k in ls[i + 1:]:
                self.enter(l, k)
                self.enter(l, neg(k))
                self.enter(neg(l), k)
                self.enter(neg(l), neg(k))
        r = self.cand.get(q)
        if r is not None:
            self.adds += 1
        return r

    # ---------------------------------------------------------- concretisation
    def value(self, v, k):
        """A coordinate when P and Q are two multiples of a real base point."""
        import random
        r = random.Random(repr((v.seed, 'points')))
        u, w = r.randrange(1, self.q), r.randrange(1, self.q)
        n = (v.poly(k[2]) * u + v.poly(k[3]) * w) % self.q
        pt = self.values.get(n)
        if pt is None:
            pt = self.values[n] = self.curve.mul(n, self.base) or (0, 0)
        return pt[0] if k[1] == 'x' else pt[1]

    # ---------------------------------------------------------- calls
    def body(self, f, env):
        """Analyse a call; the bit atoms of a call that returns pure coordinates are forgotten."""
        it = self.it
        key = self.key(f, env)
        if key is not None and key in self.memo:
            return self.memo[key]
        fm, base, low = F.mark(), it.next_addr, self.low
        nr, ncw = it.rand_count, len(it.class_writes)
        nf, nl = len(it.facts), len(it.factlist)
        self.low = 1 << 62
        try:
            r = it.run_body(f, env)
            clean = self.low >= base
        finally:
            self.low = min(self.low, low)
        if clean and (nf, nl) == (len(it.facts), len(it.factlist)) and not f.is_gen and self.pure(r):
            if key is not None and nr == it.rand_count and ncw == len(it.class_writes):
                self.memo[key] = r
            if len(F.KEYS) - fm[0] > 400:
                F.rollback(fm)
                EV.reset()
        return r

    def key(self, f, env):
        if f.is_gen or f.closure is not None:
            return None
        out = []
        for n, v in env.items():
            if isinstance(v, int) or v is None or isinstance(v, str):
                out.append((n, v))
            elif isinstance(v, ZInt) and self.pure(v):
                out.append((n, v.poly))
            elif n == 'self' and isinstance(v, Ref) and self.it.kind(v) == 'obj':
                out.append((n, self.it.canon(v)))
            else:
                return None
        return (f.node, tuple(out))

    def pure(self, r):
        if isinstance(r, tuple):
            return all(self.pure(x) for x in r)
        if isinstance(r, (int, type(None))):
            return True
        if not isinstance(r, ZInt):
            return False
        return all(Z.ZKEYS[a][0] in ('pt', 'inv', 'mod', 'fdiv') for a in Z.zatoms_in(r.poly))

    # ---------------------------------------------------------- inverses
    def call(self, f, env):
        """The result of a call that is an inversion modulo p or q, or UNDEF."""
        if f.is_gen:
            return UNDEF
        names = [n for n in env if n not in ('self', 'cls')]
        if len(names) != 2:
            return UNDEF
        ps = [to_poly(env[n]) for n in names]
        if None in ps:
            return UNDEF
        cs = [Z.as_const(p) for p in ps]
        if cs[1] in (self.p, self.q) and cs[0] is None:
            v, m, swap = ps[0], cs[1], False
        elif cs[0] in (self.p, self.q) and cs[1] is None:
            v, m, swap = ps[1], cs[0], True
        else:
            return UNDEF
        if not self.is_inverse(f, env, names, m, swap):
            return UNDEF
        return from_poly(self.reduced_inverse(v, m))

    # ---------------------------------------------------------- multiples
    def is_pt(self, p):
        return any(Z.ZKEYS[a][0] == 'pt' for mono, _ in p for a in mono)

    def which(self, px, py):
        """The label of a pair of coordinates, or None."""
        for p, y in ((px, py),):
            if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
                k = Z.ZKEYS[p[0][0][0]]
                if k[0] == 'pt' and k[1] == 'x':
                    l = (k[2], k[3])
                    if self.y(*l) == y:
                        return l
                    if self.y(*self.neg(l)) == y:
                        return self.neg(l)
        return None

    def scale(self, l, n):
        n = Z.const(n) if isinstance(n, int) else n
        return self.red(Z.mul(l[0], n)), self.red(Z.mul(l[1], n))

    def multiple(self, f, env):
        """The result of a call that multiplies a point by an unknown scalar, or UNDEF."""
        if f.is_gen:
            return UNDEF
        scal = None
        rest = []
        for n, v in env.items():
            if n in ('self', 'cls') and isinstance(v, (Ref, ClassVal)):
                continue
            for e in (v if isinstance(v, tuple) else (v,)):
                p = to_poly(e)
                if p is None:
                    if e is None:
                        continue
                    return UNDEF
                if Z.as_const(p) is not None:
                    rest.append(p)
                elif self.is_pt(p):
                    rest.append(p)
                elif scal is None and e is v:
                    scal = n
                else:
                    return UNDEF
        if scal is None or len(rest) > 2:
            return UNDEF
        pts = [p for p in rest if Z.as_const(p) is None]
        if not pts:
            L = (Z.const(1), ())
        elif len(pts) == 2:
            L = self.which(*pts)
            if L is None:
                return UNDEF
        else:
            return UNDEF
        if not self.is_multiple(f, env, scal, L, tuple(rest)):
            return UNDEF
        S = self.scale(L, to_poly(env[scal]))
        return self.point(*S)

    def is_multiple(self, f, env, scal, L, rest):
        key = (f.node, scal, rest)
        if key in self.multiples:
            return self.multiples[key]
        self.multiples[key] = False
        it = self.it
        ok = True
        snap = it.snapshot()
        facts = (dict(it.facts), list(it.factlist))
        try:
            for n in (1, 2, 3, 4, 5, 6, 7, 8, 11, 100, 255, 256, 0x12345):
                e = dict(env)
                e[scal] = n
                r = self.body(f, e)
                it.restore(snap)
                w = self.point(*self.scale(L, n))
                if not isinstance(r, tuple) or len(r) != 2 or [to_poly(x) for x in r] != [x.poly for x in w]:
                    ok = False
                    break
        except Exception:
            ok = False
        finally:
            it.restore(snap)
            it.facts, it.factlist = facts
        self.multiples[key] = ok
        return ok

    def reduced_inverse(self, v, m):
        r = Z.inv(v, Z.const(m))
        return Z.mod(r, Z.const(m))

    def is_inverse(self, f, env, names, m, swap):
        key = (f.node, m, swap)
        if key in self.inverses:
            return self.inverses[key]
        import random
        it = self.it
        self.inverses[key] = False          # while it is analysed itself
        rng = random.Random(11)
        vals = [1, 2, 3, m - 1, m - 2, (m + 1) // 2, m // 3] + [rng.randrange(1, m) for _ in range(20)]
        ok = True
        snap = it.snapshot()
        facts = (dict(it.facts), list(it.factlist))
        try:
            for c in vals:
                e = dict(env)
                e[names[1 if swap else 0]] = c
                e[names[0 if swap else 1]] = m
                r = it.run_body(f, e)
                it.restore(snap)
                if not isinstance(r, int) or isinstance(r, bool) or not 0 <= r < m or c * r % m != 1:
                    ok = False
                    break
        except Exception:
            ok = False
        finally:
            it.restore(snap)
            it.facts, it.factlist = facts
        self.inverses[key] = ok
        return ok


def canon_neg(y, p):
    return Z.sub(Z.const(p), y)


Z.canon_neg = canon_neg


def activate(it, g):
    it.group = g
    it.generic_points = True
    it.summ = None
    Z._REWRITES[:] = [g.rewrite]
    Z._REDUCE[:] = [g.reduce]
    EV.POINTS[:] = [g.value]

"""Directed search for assignments of the inputs under which two terms differ.

Two normal forms that differ only under a rare condition are not separated by
random assignments.  This module looks at the atoms that occur in one of the two
terms only, takes the ones closest to the inputs (the condition itself), and
looks for an assignment that gives such an atom its rare value: linear goals are
solved, others by local search over the inputs the goal depends on.  Like
evalform it evaluates terms of the abstract domain, never the program."""
import random
import time

from . import evalform as EV
from . import forms as F
from . import zpoly as Z

LIMIT = [12.0]         # seconds per comparison
TOTAL = [60.0]        # seconds per obligation (reset by the runner)
WITNESS = [2.0]        # seconds per path
WITNESSES = [8.0]      # seconds per obligation, for paths
CONE = 20000


class Big(Exception):
    pass


_SUBS = {}
_ZSUBS = {}


def subs(i):
    """Atoms an atom refers to directly (integer atoms resolved)."""
    r = _SUBS.get(i)
    if r is None:
        out = set()
        k = F.KEYS[i]
        t = k[0]
        if t == 'm':
            out.update(k[1])
        elif t == 'and':
            out.update(F.atoms_of(k[1]))
            out.update(F.atoms_of(k[2]))
        elif t == 'tt':
            m = 0
            for x in F.XS[k[1]]:
                m |= x
            out.update(F.atoms_of(m))
        elif t == 'sb':
            m = 0
            for l in F.chain_lists(k[1]):
                for x in l:
                    m |= x
            out.update(F.atoms_of(m))
        elif t == 'uf':
            from . import summ
            canon_atoms(summ.uf_key(k[2]), out)
        elif t == 'cond':
            cond_atoms(k[1], out)
        elif t == 'zbit':
            poly_atoms(k[1], out)
        out.discard(0)
        r = _SUBS[i] = frozenset(out)
    return r


def form_atoms(f, out):
    out.update(F.atoms_of(f))


def canon_atoms(c, out):
    stack = [c]
    while stack:
        c = stack.pop()
        if not isinstance(c, tuple) or not c:
            continue
        if len(c) == 2 and isinstance(c[1], tuple):
            if c[0] == 'i':
                m = 0
                for f in c[1]:
                    m |= f
                out.update(F.atoms_of(m))
                continue
            if c[0] == 'z':
                poly_atoms(c[1], out)
                continue
            if c[0] == 'b':
                cond_atoms(c[1], out)
                continue
        stack.extend(x for x in c if isinstance(x, tuple))


def cond_atoms(e, out):
    stack = [e]
    while stack:
        e = stack.pop()
        t = e[0]
        if t == 'not':
            stack.append(e[1])
        elif t == 'and':
            stack.extend(e[1])
        elif t == 'bit':
            out.update(F.atoms_of(e[1]))
        elif t == 'iszero':
            m = 0
            for f in e[1]:
                m |= f
            out.update(F.atoms_of(m))
        elif t in ('eq0', 'lt0'):
            poly_atoms(e[1], out)
        elif t == 'eqmod':
            poly_atoms(e[1], out)
            poly_atoms(e[2], out)


def poly_atoms(p, out):
    for m, _ in p:
        for a in m:
            out.update(zsubs(a))


def zsubs(a):
    r = _ZSUBS.get(a)
    if r is None:
        out = set()
        for z in Z.zatoms_in((((a,), 1),)):
            k = Z.ZKEYS[z]
            if k[0] == 'zb':
                m = 0
                for f in k[1]:
                    m |= f
                out.update(F.atoms_of(m))
            elif k[0] == 'zmux':
                cond_atoms(k[1], out)
        r = _ZSUBS[a] = frozenset(out)
    return r


def closure(atoms, limit=None):
    seen = set()
    stack = list(atoms)
    while stack:
        i = stack.pop()
        if i in seen or i == 0:
            continue
        seen.add(i)
        if limit is not None and len(seen) > limit:
            raise Big
        stack.extend(subs(i) - seen)
    return seen


class ConeVal(EV.Valuation):
    """Evaluates only a given set of atoms."""

    def __init__(self, order, seed, forced):
        super().__init__(seed, 'random', forced)
        self.order = order
        self.done = 1 << 60
        bits = 1
        KEYS = F.KEYS
        self.bits = 1
        for i in order:
            k = KEYS[i]
            t = k[0]
            if t == 'in':
                v = forced.get(i)
                if v is None:
                    v = self._input(k[1], k[2])
            elif t == 'm':
                v = 1
                for a in k[1]:
                    if not (bits >> a) & 1:
                        v = 0
                        break
            elif t == 'and':
                v = (k[1] & bits).bit_count() & (k[2] & bits).bit_count() & 1
            elif t == 'tt':
                xs = F.XS[k[1]]
                idx = 0
                for j, x in enumerate(xs):
                    if (x & bits).bit_count() & 1:
                        idx |= 1 << j
                v = (F._BASIS[len(xs)][1][k[2]] >> idx) & 1
            elif t == 'sb':
                s = k[2]
                c = k[1]
                while c:
                    prev, p, l = F._CHAINS[c]
                    s += sum((x & bits).bit_count() & 1 for x in l) << p
                    c = prev
                v = (s >> k[3]) & 1
            else:
                self.bits = bits
                v = self._other(k, i)
            if v:
                bits |= 1 << i
        self.bits = bits


def goals_of(e, want, out, depth=0):
    """Conjunction of goals that makes condition e have value want: ('f', form, bit) or ('c', expr, value)."""
    t = e[0]
    if t == 'not':
        goals_of(e[1], not want, out, depth)
    elif t == 'bit':
        form_goal(e[1], int(want), out, depth)
    elif t == 'iszero' and want:
        for f in e[1]:
            form_goal(f, 0, out, depth)
    elif t == 'and' and want:
        for x in e[1]:
            goals_of(x, True, out, depth)
    elif t == 'eq0' and want and integer_goal(e[1], out):
        pass
    else:
        out.append(('c', e, want))


def integer_goal(p, out):
    """A linear polynomial in one bit string is zero: its bits are known."""
    const, rest = 0, []
    for m, c in p:
        if m == ():
            const = c
        else:
            rest.append((m, c))
    if len(rest) != 1 or len(rest[0][0]) != 1:
        return False
    (a,), c = rest[0]
    if const % c:
        return False
    v = -const // c
    k = Z.ZKEYS[a]
    if k[0] == 'mod' and v >= 0:
        inner = k[1]
        if len(inner) == 1 and len(inner[0][0]) == 1 and inner[0][1] == 1:
            k = Z.ZKEYS[inner[0][0][0]]
    if k[0] != 'zb' or v < 0 or v >> len(k[1]):
        return False
    for i, f in enumerate(k[1]):
        form_goal(f, v >> i & 1, out)
    return True


def form_goal(f, bit, out, depth=0):
    if f & 1:
        f ^= 1
        bit ^= 1
    if f and f & (f - 1) == 0 and bit and depth < 12:
        k = F.KEYS[f.bit_length() - 1]
        if k[0] == 'm':
            for a in k[1]:
                form_goal(1 << a, 1, out, depth + 1)
            return
        if k[0] == 'and':
            form_goal(k[1], 1, out, depth + 1)
            form_goal(k[2], 1, out, depth + 1)
            return
    if f and f & (f - 1) == 0 and depth < 12:
        k = F.KEYS[f.bit_length() - 1]
        if k[0] == 'cond':
            goals_of(k[1], bool(bit), out, depth + 1)
            return
    out.append(('f', f, bit))


def solve_linear(goals):
    """Assignment of input atoms for goals affine in inputs, or None."""
    rows = {}
    for g in goals:
        f, b = g[1], g[2]
        v = f | 0
        c = b ^ (v & 1)
        v &= ~1
        while v:
            p = v.bit_length() - 1
            if p not in rows:
                rows[p] = (v, c)
                break
            v ^= rows[p][0]
            c ^= rows[p][1]
        else:
            if c:
                return None
    return rows


def back(rows, rng, base):
    """Complete a solution: free inputs from base."""
    val = {}
    for p in sorted(rows):
        v, c = rows[p]
        for a in F.atoms_of(v ^ (1 << p)):
            if a not in val:
                val[a] = base(a)
            c ^= val[a]
        val[p] = c
    return val


def triangular(goals, taken):
    """Goals f + p = bit with an input p on which the other terms of f do not
    depend, in an order in which each p can be computed from the rest."""
    info = []
    for g in goals:
        if g[0] != 'f':
            continue
        lin, rest = set(), set()
        for a in F.atoms_of(g[1]):
            if F.KEYS[a][0] == 'in':
                lin.add(a)
            else:
                rest.add(a)
        non = {a for a in closure(rest, CONE) if F.KEYS[a][0] == 'in'}
        cand = lin - non - taken
        if cand:
            info.append((g, cand, lin | non))
    chosen = {}          # pivot -> (goal, inputs it needs)
    for g, cand, deps in info:
        best = None
        for p in sorted(cand, key=lambda p: (sum(p in d for _, _, d in info), p))[:16]:
            if p in chosen:
                continue
            # reaching p from p through the pivots would be a cycle
            seen, stack, cycle = set(), [x for x in deps if x in chosen], False
            while stack:
                x = stack.pop()
                if x in seen:
                    continue
                seen.add(x)
                if p in chosen[x][1]:
                    cycle = True
                    break
                stack.extend(y for y in chosen[x][1] if y in chosen and y != x)
            if not cycle:
                best = p
                break
        if best is not None:
            chosen[best] = (g, deps)
    levels, left = [], dict(chosen)
    while left:
        now = [p for p in left if not any(x in left and x != p for x in left[p][1])]
        if not now:
            break
        levels.append([(p, left[p][0]) for p in now])
        for p in now:
            del left[p]
    return levels


def solve(goals, facts, rng, deadline):
    """Yields assignments {input atom: bit} that satisfy the goals."""
    goals = list(dict.fromkeys(goals))
    lin = [g for g in goals if g[0] == 'f' and all(F.KEYS[i][0] == 'in' for i in F.atoms_of(g[1]))]
    rows = solve_linear(lin)
    if rows is None:
        return
    rest = [g for g in goals if g not in lin]
    atoms = set()
    for g in goals:
        if g[0] == 'f':
            atoms.update(F.atoms_of(g[1]))
        else:
            cond_atoms(g[1], atoms)
    for e in facts or ():
        cond_atoms(e, atoms)
    cone = closure(atoms, CONE)
    order = sorted(cone)
    inputs = [i for i in order if F.KEYS[i][0] == 'in']
    groups = {}
    for i in inputs:
        k = F.KEYS[i]
        groups.setdefault((k[1], k[2] // 8), []).append(i)
    groups = list(groups.values())
    fgoals = [('c', e, v) for e, v in (facts or {}).items()]
    seed = rng.randrange(1 << 30)
    taken = set()
    for v, _ in rows.values():
        taken.update(F.atoms_of(v))
    levels = triangular(rest, taken)

    def evaluate(a):
        v = ConeVal(order, seed, a)
        s = 0
        for g in rest + fgoals:
            if g[0] == 'f':
                s += v.form(g[1]) != g[2]
            else:
                try:
                    s += v.cond(g[1]) != g[2]
                except (ZeroDivisionError, OverflowError):
                    s += 1
        return s

    def complete(a):
        if rows:
            b = back(rows, rng, lambda i: a[i] if i in a else rng.getrandbits(1))
            a = dict(a)
            a.update(b)
        for level in levels:
            v = ConeVal(order, seed, a)
            a = dict(a)
            for p, g in level:
                if v.form(g[1]) != g[2]:
                    a[p] ^= 1
        return a
    for start in range(6):
        if not inputs:
            return
        st = start % 3
        a = {i: (rng.getrandbits(1) if st == 0 else 0 if st == 1 else 1) for i in inputs}
        a = complete(a)
        s = evaluate(a)
        tries = 0
        while s and tries < 4000 and time.monotonic() < deadline:
            tries += 1
            b = dict(a)
            r = rng.random()
            if r < 0.6:
                i = rng.choice(inputs)
                b[i] ^= 1
            elif r < 0.9:
                for i in rng.choice(groups):
                    b[i] = rng.getrandbits(1)
            else:
                for _ in range(3):
                    b[rng.choice(inputs)] ^= 1
            b = complete(b)
            t = evaluate(b)
            if t <= s:
                a, s = b, t
        if s == 0:
            yield a
        if time.monotonic() >= deadline:
            return


def atoms_of_canon(c):
    out = set()
    canon_atoms(c if isinstance(c, tuple) else (c,), out)
    return out


def separating(pairs, hints, facts, test):
    """A valuation satisfying the facts with test(valuation) true, or None."""
    t0 = time.monotonic()
    budget = min(LIMIT[0], TOTAL[0])
    if budget <= 0.5:
        return None
    deadline = t0 + budget
    try:
        return _separating(pairs, hints, facts, test, deadline)
    finally:
        TOTAL[0] -= time.monotonic() - t0


def witness(facts, test):
    """A valuation that satisfies the facts (and test), searched from the facts."""
    t0 = time.monotonic()
    budget = min(WITNESS[0], WITNESSES[0])
    if budget <= 0.5:
        return None
    deadline = t0 + budget
    rng = random.Random(11)
    goals = []
    for e, v in facts.items():
        goals_of(e, v, goals)
    try:
        n = 0
        for a in solve(goals, facts, rng, deadline):
            for s in range(2):
                v = EV.Valuation(5000 + s, 'random', a)
                if EV.facts_hold(v, facts) and test(v):
                    return v
            n += 1
            if n > 3 or time.monotonic() >= deadline:
                break
    except Big:
        pass
    finally:
        WITNESSES[0] -= time.monotonic() - t0
    return None


def _separating(pairs, hints, facts, test, deadline):
    rng = random.Random(7)
    sa, sb = set(), set()
    for _, a, b in pairs:
        canon_atoms(a if isinstance(a, tuple) else (a,), sa)
        canon_atoms(b if isinstance(b, tuple) else (b,), sb)
    try:
        sa, sb = closure(sa, 600000), closure(sb, 600000)
    except Big:
        return None
    d = sa ^ sb
    minimal = sorted(i for i in d if not (subs(i) & d))
    targets = []
    vals = [EV.valuation(s, 'random') for s in range(4)]
    for i in minimal[:400]:
        seen = {v.form(1 << i) for v in vals[:2]} if time.monotonic() < deadline else {0, 1}
        if len(seen) == 1:
            targets.append([('f', 1 << i, 1 - seen.pop())])
    for h in hints[:3]:
        targets.append([('f', h, 1)])
    for goal in targets[:40]:
        if time.monotonic() >= deadline:
            break
        goals = []
        form_goal(goal[0][1], goal[0][2], goals)
        n = 0
        try:
            for a in solve(goals, facts, rng, min(deadline, time.monotonic() + 4)):
                for s in range(2):
                    v = EV.Valuation(3000 + s, 'random', a)
                    if EV.facts_hold(v, facts or {}) and test(v):
                        return v
                    if time.monotonic() >= deadline:
                        return None
                n += 1
                if n > 2:
                    break
        except Big:
            continue
    return None

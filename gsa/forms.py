"""The bit domain: every bit is an affine form over GF(2) of canonical atoms.

A form is a Python int used as a bit mask: bit 0 is the constant 1, bit i (i>0)
is atom number i.  Xor of forms is integer xor.  Atoms are interned by a
canonical key, so two bits computed in different ways but with the same
canonical form are the same function of the inputs (global value numbering with
an affine normal form).  Non-linear operations create atoms:

  ('in', name, i)            input bit
  ('m', (a, b, ...))         product of base atoms (short products only)
  ('and', f, g)              product of long forms
  ('tt', i, k)               k-th basis function of the truth tables over index vector XS[i]
  ('sb', lists, const, k)    bit k of an integer sum
  ('uf', name, key, i)       output bit i of an uninterpreted function
  ('cond', expr)             truth value of a condition
  ('zbit', poly, i)          bit i of an integer expression
"""

KEYS = [('one',)]
INDEX = {('one',): 0}


def atom(key):
    """The form consisting of the single atom `key`."""
    i = INDEX.get(key)
    if i is None:
        i = len(KEYS)
        INDEX[key] = i
        KEYS.append(key)
    return 1 << i


def atoms_of(form):
    out = []
    form &= ~1
    if not form:
        return out
    if form.bit_length() < 256:
        while form:
            low = form & -form
            out.append(low.bit_length() - 1)
            form ^= low
        return out
    s = bin(form)[:1:-1]
    i = s.find('1')
    while i >= 0:
        out.append(i)
        i = s.find('1', i + 1)
    return out


def is_const(f):
    return f == 0 or f == 1


def _mono(ids):
    """Form of the product of the base atoms `ids` (a frozenset)."""
    if len(ids) == 1:
        return 1 << next(iter(ids))
    return atom(('m', tuple(sorted(ids))))


def _base(i):
    k = KEYS[i]
    return frozenset(k[1]) if k[0] == 'm' else frozenset((i,))


def and_(f, g):
    if f == 0 or g == 0:
        return 0
    if f == 1:
        return g
    if g == 1:
        return f
    if f == g:
        return f
    if f == g ^ 1:
        return 0
    c, d = f & 1, g & 1
    fl, gl = f & ~1, g & ~1
    # fg = fl*gl + d*fl + c*gl + c*d
    res = (fl if d else 0) ^ (gl if c else 0) ^ (c & d)
    nf, ng = bin(fl).count('1'), bin(gl).count('1')
    if nf * ng <= 36:
        fa = [_base(i) for i in atoms_of(fl)]
        ga = [_base(i) for i in atoms_of(gl)]
        if all(len(a) <= 4 for a in fa) and all(len(b) <= 4 for b in ga):
            for a in fa:
                for b in ga:
                    res ^= _mono(a | b)
            return res
    if fl == gl:
        return res ^ fl
    if fl > gl:
        fl, gl = gl, fl
    return res ^ atom(('and', fl, gl))


def or_(f, g):
    return f ^ g ^ and_(f, g)


def mux(c, a, b):
    """c ? a : b"""
    return b ^ and_(c, a ^ b)


# ---------------------------------------------------------------- truth tables
# basis of non-affine functions of n variables, by n
_BASIS = {}


def _affine_tables(n):
    out = [(1 << (1 << n)) - 1]
    for i in range(n):
        t = 0
        for x in range(1 << n):
            if (x >> i) & 1:
                t |= 1 << x
        out.append(t)
    return out


_AFF = {}


def _aff(n):
    if n not in _AFF:
        _AFF[n] = _affine_tables(n)
    return _AFF[n]


def _split_affine(tt, n):
    """Remove the affine part of truth table tt: (constant, [linear bits], rest).

    The rest has value 0 at 0 and at every unit vector."""
    c = tt & 1
    lin = []
    aff = _aff(n)
    rest = tt ^ (aff[0] if c else 0)
    for i in range(n):
        b = (rest >> (1 << i)) & 1
        lin.append(b)
        if b:
            rest ^= aff[i + 1]
            # removing x_i leaves the value at the other unit vectors unchanged
    return c, lin, rest


def _reduce(rest, n, full):
    """Express rest in the basis, extending it: list of basis indices."""
    rows, order = _BASIS.setdefault(n, ({}, []))
    used = 0
    r = rest
    while r:
        h = r.bit_length() - 1
        if h in rows:
            vec, comb = rows[h]
            r ^= vec
            used ^= comb
        else:
            k = len(order)
            order.append(full)
            rows[h] = (r, used ^ (1 << k))
            # the function itself is the new basis element k
            return [k]
    return [i for i in range(used.bit_length()) if (used >> i) & 1]


def _basis_tt(n, k):
    return _BASIS[n][1][k]


_SPLIT = {}
_GROUP = []      # index vector number -> mask of the atoms over it
_XSID = {}       # index vector -> number
XS = []          # number -> index vector


def _xsid(xs):
    i = _XSID.get(xs)
    if i is None:
        i = len(XS)
        _XSID[xs] = i
        XS.append(xs)
        _GROUP.append(0)
        _ATOMS.append({})
    return i


def _split(tt, n):
    r = _SPLIT.get((tt, n))
    if r is None:
        c, lin, rest = _split_affine(tt, n)
        ks = _reduce(rest, n, tt) if rest else []
        # the affine part relative to the basis functions themselves
        for k in ks:
            c2, lin2, _ = _split_affine(_BASIS[n][1][k], n)
            c ^= c2
            lin = [x ^ y for x, y in zip(lin, lin2)]
        r = (c, [i for i in range(n) if lin[i]], ks)
        _SPLIT[(tt, n)] = r
    return r


_ATOMS = []      # per index vector: {k: form of the atom}


def tt_form(tt, xs, xi=None):
    """Form of the boolean function with truth table tt of the forms xs.

    xs must be linearly independent (together with the constant)."""
    n = len(xs)
    sp = _SPLIT.get((tt, n))
    if sp is None:
        sp = _split(tt, n)
    if xi is None:
        xi = _xsid(xs)
    return _emit(sp, xs, xi)


def _emit(sp, xs, xi):
    c, lin, ks = sp
    f = c
    for i in lin:
        f ^= xs[i]
    if ks:
        at = _ATOMS[xi]
        for k in ks:
            a = at.get(k)
            if a is None:
                a = at[k] = atom(('tt', xi, k))
                _GROUP[xi] |= a
            f ^= a
    return f


def _eval_over(form, xs):
    """Truth table of `form` over the independent forms xs, or None."""
    n = len(xs)
    tt = 0
    mine = form & _GROUP[_xsid(xs)]
    rest = form ^ mine
    for i in atoms_of(mine):
        tt ^= _basis_tt(n, KEYS[i][2])
    if rest == 1:
        tt ^= _aff(n)[0]
    elif rest:
        comb = _solve(rest, xs)
        if comb is None:
            return None
        if comb & 1 << n:
            tt ^= _aff(n)[0]
        for j in range(n):
            if (comb >> j) & 1:
                tt ^= _aff(n)[j + 1]
    return tt


def _solve(target, xs):
    """Write target (no constant) as combination of xs (constants allowed)."""
    rows = []
    for j, x in enumerate(xs):
        v, comb = x, 1 << j
        for (piv, rv, rc) in rows:
            if (v >> piv) & 1:
                v ^= rv
                comb ^= rc
        if v & ~1:
            rows.append(((v & ~1).bit_length() - 1, v, comb))
    v, comb = target, 0
    for (piv, rv, rc) in rows:
        if (v >> piv) & 1:
            v ^= rv
            comb ^= rc
    if v == 1:
        return comb | 1 << len(xs)
    return None if v else comb


_LUT = {}
_AFFTAB = {}


def _affine_table(table, n):
    """(constant, columns) if the table is an affine map of its n index bits."""
    key = (table, n)
    r = _AFFTAB.get(key)
    if r is None:
        r = False
        if len(table) >= 1 << n:
            c = table[0]
            cols = [table[1 << i] ^ c for i in range(n)]
            ok = True
            for x in range(1 << n):
                v = c
                for i in range(n):
                    if (x >> i) & 1:
                        v ^= cols[i]
                if v != table[x]:
                    ok = False
                    break
            if ok:
                r = (c, cols)
        _AFFTAB[key] = r
    return r


def lookup(table, xs, width):
    """Bits (LSB first) of table[x] where x has the bit forms xs (LSB first)."""
    n = len(xs)
    table = tuple(table)
    af = _affine_table(table, n)
    if af:
        c, cols = af
        out = [(c >> b) & 1 for b in range(width)]
        for i in range(n):
            col = cols[i]
            if not xs[i]:
                continue
            for b in range(width):
                if (col >> b) & 1:
                    out[b] ^= xs[i]
        return out
    # affine reduction of the index space: xs = A * ys + b with ys independent
    ys = []
    rows = []      # (pivot, vector, combination over ys)
    exprs = []     # per index bit: (const, comb over ys)
    for x in xs:
        v, comb = x, 0
        for (piv, rv, rc) in rows:
            if (v >> piv) & 1:
                v ^= rv
                comb ^= rc
        if v & ~1:
            j = len(ys)
            ys.append(x)
            vv, cc = x, 1 << j
            for (piv, rv, rc) in rows:
                if (vv >> piv) & 1:
                    vv ^= rv
                    cc ^= rc
            rows.append(((vv & ~1).bit_length() - 1, vv, cc))
            exprs.append((0, 1 << j))
        else:
            exprs.append((v & 1, comb))
    k = len(ys)
    if k == 0:
        idx = sum(c << i for i, (c, _) in enumerate(exprs))
        if idx >= len(table):
            raise IndexError
        return [(table[idx] >> b) & 1 for b in range(width)]
    ys = tuple(ys)
    # composition: all ys functions of one other index vector (the newest atom
    # of a composite is always one over that vector)
    top = max(y.bit_length() for y in ys) - 1
    key = KEYS[top]
    if key[0] == 'tt':
        inner = XS[key[1]]
        tabs = []
        for y in ys:
            t = _eval_over(y, inner)
            if t is None:
                break
            tabs.append(t)
        if len(tabs) == k:
            outs = _compose(table, tuple(exprs), tuple(tabs), len(inner), width)
            return [tt_form(o, inner) for o in outs]
    ck = (table, tuple(exprs), k, width)
    outs = _LUT.get(ck)
    if outs is None:
        outs = [0] * width
        for y in range(1 << k):
            idx = 0
            for i, (c, comb) in enumerate(exprs):
                idx |= (c ^ (bin(comb & y).count('1') & 1)) << i
            if idx >= len(table):
                raise IndexError
            val = table[idx]
            b = 0
            while val:
                if val & 1:
                    outs[b] |= 1 << y
                val >>= 1
                b += 1
        outs = [_split(o, k) for o in outs]
        _LUT[ck] = outs
    xi = _xsid(ys)
    return [_emit(o, ys, xi) for o in outs]


_COMP = {}


def _compose(table, exprs, tabs, m, width):
    ck = (table, exprs, tabs, m, width)
    outs = _COMP.get(ck)
    if outs is not None:
        return outs
    outs = [0] * width
    k = len(tabs)
    for x in range(1 << m):
        yv = 0
        for j in range(k):
            yv |= ((tabs[j] >> x) & 1) << j
        idx = 0
        for i, (c, comb) in enumerate(exprs):
            idx |= (c ^ (bin(comb & yv).count('1') & 1)) << i
        if idx >= len(table):
            raise IndexError
        val = table[idx]
        for b in range(width):
            if (val >> b) & 1:
                outs[b] |= 1 << x
    _COMP[ck] = outs
    return outs


# ---------------------------------------------------------------- integer sums
def _flatten_operand(bits):
    """If bits = floor(Q / 2^j) for a known sum Q return (lists, const, j)."""
    key0 = None
    for i, f in enumerate(bits):
        if f & 1 or f == 0 or f & (f - 1):
            return None
        k = KEYS[f.bit_length() - 1]
        if k[0] != 'sb':
            return None
        if i == 0:
            key0 = k
        elif k[1] != key0[1] or k[2] != key0[2] or k[3] != key0[3] + i:
            return None
    if key0 is None:
        return None
    lists, const, j = chain_lists(key0[1]), key0[2], key0[3]
    if len(lists) > j:
        return None
    top = const
    for p, l in enumerate(lists):
        top += len(l) << p
    if top >> (j + len(bits)):
        return None          # more significant bits exist that are not in `bits`
    return lists, const, j


def add(operands, const=0):
    """Sum of non-negative integers given as (bits, prov) plus const >= 0.

    prov is None or (lists, const, j): the operand equals floor(Q / 2^j) for the
    sum Q of the bits in `lists` (per position) plus const.  Returns (bits, prov).
    """
    ops = []
    for bits, prov in operands:
        bits = list(bits)
        while bits and bits[-1] == 0:
            bits.pop()
        if not bits:
            continue
        if all(f in (0, 1) for f in bits):
            const += sum(f << i for i, f in enumerate(bits))
            continue
        if prov is None:
            prov = _flatten_operand(bits)
        ops.append((bits, prov))
    pos, vectors = [], []
    shift = 0
    for bits, prov in ops:
        if prov is not None and prov[2] > shift:
            shift = prov[2]
    used = False
    for bits, prov in ops:
        if prov is not None and prov[2] == 0:
            off = shift
            while len(pos) < len(prov[0]) + off:
                pos.append([])
            for p, l in enumerate(prov[0]):
                pos[p + off].extend(l)
            const += prov[1]
        elif prov is not None and prov[2] == shift and not used:
            used = True
            while len(pos) < len(prov[0]):
                pos.append([])
            for p, l in enumerate(prov[0]):
                pos[p].extend(l)
            carry_const = prov[1]
        else:
            vectors.append([0] * shift + bits)
    const <<= shift
    if used:
        const += carry_const
    bits, lists, c = _add_pos(pos, vectors, const)
    return bits[shift:], (lists, c, shift)


def _add_pos(pos, vectors, const):
    pos = [list(l) for l in pos]
    for v in vectors:
        while len(pos) < len(v):
            pos.append([])
        for p, f in enumerate(v):
            if f == 0:
                continue
            if f == 1:
                const += 1 << p
            else:
                pos[p].append(f)
    # f + f = 2f ; f + ~f = 1
    key = (const, tuple(map(tuple, pos)))
    hit = _ADDMEMO.get(key)
    if hit is not None:
        return list(hit[0]), hit[1], hit[2]
    p = 0
    while p < len(pos):
        if len(pos[p]) < 2:
            p += 1
            continue
        l = sorted(pos[p])
        out = []
        i = 0
        while i < len(l):
            if i + 1 < len(l) and l[i] == l[i + 1]:
                if p + 1 == len(pos):
                    pos.append([])
                pos[p + 1].append(l[i])
                i += 2
            else:
                out.append(l[i])
                i += 1
        s = set(out)
        rem = []
        for f in out:
            if f & 1 and (f ^ 1) in s:
                const += 1 << p
                s.discard(f)
                s.discard(f ^ 1)
        rem = [f for f in out if f in s]
        pos[p] = sorted(rem)
        p += 1
    top = const + sum(len(l) << p for p, l in enumerate(pos))
    width = top.bit_length()
    res = []
    # positions below `base` cannot generate a carry
    base = 0
    while base < len(pos) and len(pos[base]) + ((const >> base) & 1) <= 1:
        base += 1
    chain, mx = 0, 0
    for k in range(width):
        f = (const >> k) & 1
        if k < len(pos):
            for g in pos[k]:
                f ^= g
        if k > base:
            c = (const & ((1 << k) - 1)) >> base
            kk = k - base
            if chain and (c + mx) >> kk:
                f ^= atom(('sb', chain, c, kk))
            elif not chain and (c >> kk) & 1:
                f ^= 1
        res.append(f)
        if base <= k < len(pos) and pos[k]:
            chain = _chain(chain, k - base, tuple(pos[k]))
            mx += len(pos[k]) << (k - base)
    while res and res[-1] == 0:
        res.pop()
    r = res, tuple(map(tuple, pos)), const
    if len(_ADDMEMO) > 3000:
        _ADDMEMO.clear()
    _ADDMEMO[key] = (tuple(res), r[1], const)
    return r


_ADDMEMO = {}
_CHAIN = {}
_CHAINS = [None]


def _chain(prev, p, l):
    key = (prev, p, l)
    i = _CHAIN.get(key)
    if i is None:
        i = len(_CHAINS)
        _CHAIN[key] = i
        _CHAINS.append(key)
    return i


def chain_lists(i):
    """The per-position lists of a sum chain."""
    items = []
    while i:
        prev, p, l = _CHAINS[i]
        items.append((p, l))
        i = prev
    if not items:
        return ()
    out = [()] * (items[0][0] + 1)
    for p, l in items:
        out[p] = l
    return tuple(out)


# ---------------------------------------------------------------- scopes
def mark():
    return len(KEYS), len(XS), len(_CHAINS)


def rollback(m):
    """Forget every atom created since mark(); no value using one may be kept."""
    nk, nx, nc = m
    _ADDMEMO.clear()
    for k in KEYS[nk:]:
        del INDEX[k]
    del KEYS[nk:]
    for xs in XS[nx:]:
        del _XSID[xs]
    del XS[nx:], _GROUP[nx:], _ATOMS[nx:]
    full = (1 << nk) - 1
    for i, g in enumerate(_GROUP):
        if g > full:
            _GROUP[i] = g & full
            _ATOMS[i] = {k: a for k, a in _ATOMS[i].items() if a <= full}
    for c in _CHAINS[nc:]:
        del _CHAIN[c]
    del _CHAINS[nc:]


def reset():
    rollback((1, 0, 1))

"""Function summaries.

A function whose analysis is expensive is analysed once with unknown arguments
of the given shape.  If that analysis shows that it neither changes nor captures
any existing object, reads nothing but its arguments, named fields of its
receiver and constants, and takes no data-dependent branch that ends in an
exception, its calls are afterwards represented by an uninterpreted function of
exactly those inputs (a Herbrand term).  Two calls with equal inputs then have
equal results.  For a pair of methods encrypt/decrypt of a class whose
compositions were analysed to be the identity, the two uninterpreted functions
cancel.

Summaries lose precision, never soundness of "equal"; a difference found under
summaries is analysed again without them before it is reported.
"""
import ast

from . import forms as F
from . import zpoly as Z
from .values import Ref, SInt, ZInt, SBytes, Func, ClassVal, mk_int

HEAVY = 1500      # evaluation steps ...
LOOKUPS = 100     # ... or table lookups of an unknown index that make a function worth a summary

_KEYS = {}
_KEYLIST = []


def uf_id(key):
    i = _KEYS.get(key)
    if i is None:
        i = len(_KEYLIST)
        _KEYS[key] = i
        _KEYLIST.append(key)
    return i


def uf_key(i):
    return _KEYLIST[i]


class NoSummary(Exception):
    pass


class Info:
    __slots__ = ('template', 'cost', 'lookups', 'fields', 'name')


class Summaries:
    def __init__(self, it):
        self.it = it
        self.status = {}      # fid -> False (never) | {shapekey: Info or None}
        self.fields = {}      # fid -> set of field names read
        self.running = []
        self.pairs = {}       # fid -> inverse fid (or False)
        self.used = {}
        self.fresh = 0
        self.lookups = 0      # table lookups of unknown index, those within summaries included
        self.disabled = False
        self.names = {}

    # ------------------------------------------------------------ shapes
    def shape(self, v, depth=0):
        it = self.it
        if isinstance(v, bytes):
            return ('bytes', len(v))
        if isinstance(v, SBytes):
            return ('bytes', len(v.el))
        if isinstance(v, Ref):
            k = it.kind(v)
            p = it.payload(v)
            if k == 'bytearray':
                return ('bytearray', len(p))
            if k == 'list' and depth < 3:
                return ('list',) + tuple(self.shape(x, depth + 1) for x in p)
            raise NoSummary
        if isinstance(v, tuple) and depth < 3:
            return ('tuple',) + tuple(self.shape(x, depth + 1) for x in v)
        if v is None or isinstance(v, (bool, int, str)):
            return ('c', type(v).__name__, v)
        if isinstance(v, SInt):
            return ('int', len(v.bits) if len(v.bits) > 8 else 8)
        raise NoSummary

    def symbolic(self, v, depth=0):
        if isinstance(v, (SInt, ZInt)):
            return True
        if isinstance(v, SBytes):
            return True
        if isinstance(v, Ref):
            k = self.it.kind(v)
            if k == 'bytearray':
                return any(not isinstance(x, int) for x in self.it.payload(v))
            if k == 'list' and depth < 3:
                return any(self.symbolic(x, depth + 1) for x in self.it.payload(v))
            return False
        if isinstance(v, tuple) and depth < 3:
            return any(self.symbolic(x, depth + 1) for x in v)
        return False

    def generic(self, v):
        """The same shape with unknown content."""
        it = self.it
        if isinstance(v, bytes) or isinstance(v, SBytes):
            n = len(v) if isinstance(v, bytes) else len(v.el)
            return it.mk_bytes(self.unknown(n))
        if isinstance(v, Ref):
            k, p = it.kind(v), it.payload(v)
            if k == 'bytearray':
                return it.new_bytearray(self.unknown(len(p)))
            return it.new_list([self.generic(x) for x in p])
        if isinstance(v, tuple):
            return tuple(self.generic(x) for x in v)
        if isinstance(v, SInt):
            self.fresh += 1
            n = max(8, len(v.bits))
            return SInt(tuple(F.atom(('in', 'gen#%d' % self.fresh, j)) for j in range(n)))
        return v

    def unknown(self, n):
        self.fresh += 1
        nm = 'gen#%d' % self.fresh
        return tuple(SInt(tuple(F.atom(('in', nm, 8 * i + j)) for j in range(8))) for i in range(n))

    def candidate(self, f):
        """Returns a value and stores to no attribute itself."""
        if isinstance(f.node, ast.Lambda):
            return False
        ret = False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                return False
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                    isinstance(n.value, ast.Attribute):
                return False
            if isinstance(n, ast.Return) and n.value is not None:
                ret = True
        return ret

    # ------------------------------------------------------------ calls
    def try_call(self, f, args, env):
        """(True, value) if the call is represented by its summary."""
        if self.disabled or f.is_gen or self.it.tag is not None:
            return False, None
        fid = (f.module.name, f.qual)
        if not f.module.name.startswith(self.it.package):
            return False, None
        st = self.status.get(fid)
        if st is False or fid in self.running:
            return False, None
        if st is None and not self.candidate(f):
            self.status[fid] = False
            return False, None
        it = self.it
        names = list(env)
        recv = None
        vals = []
        for i, n in enumerate(names):
            v = env[n]
            if i == 0 and isinstance(v, Ref) and it.kind(v) == 'obj':
                recv = v
                continue
            if isinstance(v, ClassVal) and i == 0:
                continue
            vals.append((n, v))
        try:
            sh = tuple((n, self.shape(v)) for n, v in vals)
        except NoSummary:
            return False, None
        if not any(s[0] in ('bytes', 'bytearray', 'int', 'list', 'tuple') for _, s in sh):
            return False, None
        flds = self.fields.get(fid)
        if not any(self.symbolic(v) for _, v in vals) and \
                not (recv is not None and flds and any(self.symbolic(it.payload(recv)[1].get(k)) for k in flds)):
            if flds is not None or recv is None:
                return False, None
            # receiver fields unknown yet: only worth a trial with unknown state
            if not any(self.symbolic(v) for v in it.payload(recv)[1].values()):
                return False, None
        if st is None:
            st = self.status[fid] = {}
        for _ in range(3):
            flds = self.fields.get(fid, frozenset())
            try:
                fsh = tuple((k, self.shape(it.payload(recv)[1].get(k))) for k in sorted(flds)) if recv is not None else ()
            except NoSummary:
                return False, None
            sk = (sh, fsh, id(it.payload(recv)[0]) if recv is not None else 0)
            if sk in st:
                info = st[sk]
                break
            info = self.trial(f, fid, env, recv, vals)
            if info is False:
                self.status[fid] = False
                return False, None
            if self.fields.get(fid, frozenset()) == flds:
                st[sk] = info
                break
        else:
            return False, None
        if info is None:
            return False, None
        return True, self.apply(fid, info, recv, vals)

    def trial(self, f, fid, env, recv, vals):
        it = self.it
        from .interp import MergeFail, TargetExc, Abandon, GenSymbolic, Unsupported, RecursionOnUnknown
        snap = it.snapshot()
        fm, zm, um = F.mark(), Z.mark(), len(_KEYLIST)
        facts = (dict(it.facts), list(it.factlist))
        depth = len(it.stack)
        nw, nl, nm = len(it.writes), len(it.loop_notes), len(it.mu_log)
        steps0 = it.steps
        look0 = self.lookups
        saved_track = it.track
        self.running.append(fid)
        it.in_merge += 1
        try:
            e2 = dict(env)
            for n, v in vals:
                e2[n] = self.generic(v)
            before = dict(it.heap)
            reads = set()
            it.track = (reads, frozenset(before)) if recv is not None else (reads, frozenset(before))
            try:
                r = it.run_body(f, e2)
            except (MergeFail, TargetExc, Abandon, GenSymbolic):
                return None
            except (Unsupported, RecursionOnUnknown, RecursionError):
                return False
            cost = it.steps - steps0
            lookups = F.mark()[1] - fm[1] + self.lookups - look0
            if cost < HEAVY and lookups < LOOKUPS:
                return None if cost > 200 else False
            # effects
            for a, v in before.items():
                w = it.heap.get(a)
                if w is not v and w != v:
                    return False
            if it.rand_count != snap[2] or len(it.writes) != nw or len(it.loop_notes) != nl or len(it.mu_log) != nm:
                return False
            fl = set()
            for (addr, name) in reads:
                if recv is None or addr != recv.addr:
                    return False
                fl.add(name)
            if fl:
                have = it.payload(recv)[1]
                for k in fl:
                    self.shape(have.get(k))
            if saved_track is not None:
                for x in reads:
                    if x[0] in saved_track[1]:
                        saved_track[0].add(x)
            self.fields[fid] = frozenset(fl) | self.fields.get(fid, frozenset())
            info = Info()
            info.template = self.template(r, before)
            info.cost = cost
            info.lookups = lookups
            info.name = '.'.join(fid)
            return info
        except NoSummary:
            return False
        finally:
            self.running.pop()
            it.in_merge -= 1
            it.track = saved_track
            it.restore(snap)
            it.facts, it.factlist = facts
            del it.stack[depth:]
            it.steps = steps0
            self.lookups = look0
            del it.writes[nw:], it.loop_notes[nl:], it.mu_log[nm:]
            self.forget(fm, zm, um)

    def forget(self, fm, zm, um):
        F.rollback(fm)
        Z.rollback(zm)
        for k in _KEYLIST[um:]:
            del _KEYS[k]
        del _KEYLIST[um:]

    def template(self, r, before):
        it = self.it
        if isinstance(r, bytes) or isinstance(r, SBytes):
            return ('bytes', len(r) if isinstance(r, bytes) else len(r.el))
        if isinstance(r, Ref):
            if r.addr in before:
                raise NoSummary
            k, p = it.kind(r), it.payload(r)
            if k == 'bytearray':
                return ('bytearray', len(p))
            if k == 'list':
                return ('list', tuple(self.template(x, before) for x in p))
            raise NoSummary
        if isinstance(r, tuple):
            return ('tuple', tuple(self.template(x, before) for x in r))
        raise NoSummary

    def strip(self, c):
        """bytes and bytearray arguments of equal content are the same input."""
        if isinstance(c, tuple) and c and c[0] == 'bytearray':
            return ('bytes', c[1])
        if isinstance(c, tuple) and c and c[0] in ('list', 'tuple'):
            return (c[0],) + tuple(tuple(self.strip(y) for y in x) if isinstance(x, tuple) and x and isinstance(x[0], tuple)
                                   else self.strip(x) for x in c[1:])
        return c

    def apply(self, fid, info, recv, vals):
        it = self.it
        it.steps += info.cost
        self.lookups += info.lookups
        fl = ()
        if recv is not None:
            have = it.payload(recv)[1]
            if it.track is not None and recv.addr in it.track[1]:
                for k in self.fields[fid]:
                    it.track[0].add((recv.addr, k))
            fl = tuple((k, self.strip(it.canon(have.get(k)))) for k in sorted(self.fields[fid]))
        args = tuple(self.strip(it.canon(v)) for _, v in vals)
        self.used[info.name] = self.used.get(info.name, 0) + 1
        key = (fl, args)
        kid = uf_id(key)
        inv = self.inverse(fid, recv, vals, info)
        if inv and info.template[0] in ('bytes', 'bytearray') and len(args) == 1:
            back = self.cancel(inv, fl, args[0])
            if back is not None:
                el = tuple(x if isinstance(x, int) else SInt(x[1]) for x in back)
                return it.new_bytearray(el) if info.template[0] == 'bytearray' else it.mk_bytes(el)
        self.pos = 0
        return self.build(info.template, info.name, kid)

    def build(self, t, name, kid):
        it = self.it
        if t[0] in ('bytes', 'bytearray'):
            el = []
            for i in range(t[1]):
                el.append(SInt(tuple(F.atom(('uf', name, kid, self.pos + j)) for j in range(8))))
                self.pos += 8
            return it.mk_bytes(el) if t[0] == 'bytes' else it.new_bytearray(el)
        items = [self.build(x, name, kid) for x in t[1]]
        return tuple(items) if t[0] == 'tuple' else it.new_list(items)

    # ------------------------------------------------------------ inverses
    def inverse(self, fid, recv, vals, info):
        """The id of the method that inverts this one, if that was shown."""
        if fid in self.pairs:
            return self.pairs[fid]
        self.pairs[fid] = False
        base, _, meth = fid[1].rpartition('.')
        other = {'encrypt': 'decrypt', 'decrypt': 'encrypt'}.get(meth)
        if recv is None or other is None or len(vals) != 1:
            return False
        it = self.it
        cls = it.payload(recv)[0]
        g, owner = it.class_lookup(cls, other)
        f, _ = it.class_lookup(cls, meth)
        if not isinstance(g, Func) or not isinstance(f, Func):
            return False
        gid = (g.module.name, g.qual)
        from .interp import MergeFail, TargetExc, Abandon, GenSymbolic, Unsupported, RecursionOnUnknown, Bound
        snap = it.snapshot()
        fm, zm, um = F.mark(), Z.mark(), len(_KEYLIST)
        facts = (dict(it.facts), list(it.factlist))
        depth = len(it.stack)
        nw = len(it.writes)
        steps0 = it.steps
        self.disabled = True
        track = it.track
        it.track = None
        it.in_merge += 1
        ok = True
        try:
            x = self.generic(vals[0][1])
            want = self.strip(it.canon(x))
            for a, b in ((f, g), (g, f)):
                y = it.call(Bound(a, recv), [x], {})
                z = it.call(Bound(b, recv), [y], {})
                if self.strip(it.canon(z)) != want:
                    ok = False
        except (MergeFail, TargetExc, Abandon, GenSymbolic, Unsupported, RecursionOnUnknown, RecursionError):
            ok = False
        finally:
            self.disabled = False
            it.in_merge -= 1
            it.track = track
            it.restore(snap)
            it.facts, it.factlist = facts
            del it.stack[depth:]
            del it.writes[nw:]
            it.steps = steps0
            self.forget(fm, zm, um)
        if ok:
            self.pairs[fid] = gid
            self.pairs[gid] = fid
        return self.pairs[fid]

    def cancel(self, inv, fl, arg):
        """If arg is the output of the inverse method with the same state: its argument."""
        if not (isinstance(arg, tuple) and arg and arg[0] == 'bytes'):
            return None
        name = '.'.join(inv)
        kid = None
        pos = 0
        for x in arg[1]:
            if not (isinstance(x, tuple) and x[0] == 'i' and len(x[1]) == 8):
                return None
            for f in x[1]:
                if f & 1 or f == 0 or f & (f - 1):
                    return None
                k = F.KEYS[f.bit_length() - 1]
                if k[0] != 'uf' or k[1] != name or k[3] != pos or (kid is not None and k[2] != kid):
                    return None
                kid = k[2]
                pos += 1
        if kid is None:
            return None
        key = uf_key(kid)
        if key[0] != fl or len(key[1]) != 1 or len(key[1][0][1]) != len(arg[1]):
            return None
        return key[1][0][1]

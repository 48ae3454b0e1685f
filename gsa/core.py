"""What a check is made of: obligations, outcomes, and the context they run in."""
import ast

from . import forms as F
from . import zpoly as Z
from . import evalform as EV
from . import builtins_ as B
from .interp import (Interp, TargetExc, Unsupported, Abandon, MergeFail, RecursionOnUnknown, cls_name)
from .summ import Summaries
from .values import *
from .values import mk_int, bits_of


class Missing(Exception):
    """A public anchor of the property is not in the source."""


class Violation(Exception):
    def __init__(self, msg, where='', soft=False, detail=None):
        self.msg, self.where, self.soft, self.detail = msg, where, soft, detail
        super().__init__(msg)


class Enough(Exception):
    """Enough has been found to decide the obligation."""


class Ctx:
    """Analysis context of one obligation."""

    def __init__(self, it, precise=False, tier='quick'):
        self.it = it
        self.precise = precise
        self.tier = tier
        self.found = []       # (msg, where, soft)
        self.notes = []
        self.items = 0        # compared values / judged paths
        self.sample = []
        self.assign = []      # assignments separating the soft findings
        if precise:
            it.summ = None

    # ------------------------------------------------------------ building
    def mod(self, name=''):
        return self.it.load('gostcrypto' + ('.' + name if name else ''))

    def get(self, mod, name):
        m = self.mod(mod)
        if name not in m.ns:
            raise Missing('%s.%s is not defined' % (m.name, name))
        return m.ns[name]

    def fn(self, mod, name, *a, **k):
        return self.it.call(self.get(mod, name), list(a), k)

    def has(self, o, name):
        it = self.it
        return it.class_lookup(it.payload(o)[0], name)[1] is not None or name in it.payload(o)[1]

    def call(self, o, name, *a, **k):
        return self.it.call(self.it.getattr(o, name), list(a), k)

    def attr(self, o, name):
        return self.it.getattr(o, name)

    def sym(self, name, n, kind='bytearray'):
        el = B.sym_bytes(name, n)
        return self.it.new_bytearray(el) if kind == 'bytearray' else self.it.mk_bytes(el)

    def arr(self, el):
        return self.it.new_bytearray(tuple(el))

    def by(self, el):
        return self.it.mk_bytes(tuple(el))

    def el(self, v):
        r = self.it.byte_items(v)
        if r is None:
            raise Violation('value is not a byte string but %s' % self.it.type_name(v))
        return r

    def frozen(self, v):
        """The content of a byte string, independent of the heap."""
        r = self.it.byte_items(v)
        return v if r is None else self.by(r)

    def cat(self, *vs):
        out = ()
        for v in vs:
            out += tuple(v) if isinstance(v, tuple) else tuple(self.el(v))
        return out

    # ------------------------------------------------------------ judging
    def fail(self, msg, where='', soft=False):
        key = (msg, where)
        if key not in [(m, w) for m, w, _ in self.found]:
            self.found.append((msg, where, soft))
            if soft and len(self.assign) < 3:
                a = EV.assignment(EV.LAST[0])
                if a not in self.assign:
                    self.assign.append(a)
        EV.LAST[0] = None
        if B.BIND[0] is not None or len(self.found) >= 6:
            raise Enough()

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def eq(self, a, b, msg, where='', content=False):
        """The two values are the same function of the inputs on this path."""
        it = self.it
        self.items += 1
        ca, cb = it.canon(a), it.canon(b)
        if content:
            ca, cb = _content(ca), _content(cb)
        r, why = EV.compare(ca, cb, it.facts)
        if r == 'same':
            return True
        if r == 'different':
            self.fail('%s (%s)' % (msg, why), where, soft=True)
        else:
            self.note('not decided: %s: %s' % (msg, why))
        return False

    def feasible(self, facts=None):
        facts = self.it.facts if facts is None else facts
        if not facts:
            return True
        return EV.separate(lambda v: True, facts) is not None

    def paths(self, fn, on_exc=None, max_paths=256):
        """Analyse fn on every partition; results as (kind, value, facts)."""
        res = self.it.explore(fn, max_paths)
        out = []
        for (kind, val), state in res:
            out.append((kind, val, state))
            if kind == 'exc' and on_exc is not None:
                on_exc(val, state[1])
        return out

    def scenario(self, fn, what, allow=()):
        """fn holds on all partitions and raises nothing."""
        def run():
            try:
                return fn()
            except Violation as v:
                self.fail(v.msg, v.where, v.soft)
        for kind, val, st in self.paths(run):
            if kind == 'exc':
                if any(x in self.text(self.error_of(val)[1]) for x in allow):
                    continue
                if self.feasible(st[1]):
                    self.fail('%s: raises %s (%s)' % (what, cls_name(val.cls), self.text(val.msg)), val.site)
                else:
                    self.note('not decided: %s may raise %s' % (what, cls_name(val.cls)))
            elif kind == 'abandon':
                self.note('%s: a path beyond the loop bound was not analysed' % what)
        return True

    def text(self, m):
        return m if isinstance(m, str) else '...'

    def error_of(self, exc):
        """(class name, message text) of an exception of the package."""
        msg = getattr(exc, 'text', None)
        if msg is None:
            msg = self.it.exc_text(exc)
        return cls_name(exc.cls), msg

    def where(self, o, name):
        """file:line (function) of a method of the object."""
        it = self.it
        try:
            cls = it.payload(o)[0] if isinstance(o, Ref) else o
            v, owner = it.class_lookup(cls, name)
            if isinstance(v, PropVal):
                v = v.fget
            if isinstance(v, (StaticM, ClassM)):
                v = v.f
            return self.fwhere(v)
        except Exception:
            return ''

    def fwhere(self, f):
        if not isinstance(f, Func):
            return ''
        p = f.module.path or f.module.name
        if p.startswith(self.it.root + '/'):
            p = p[len(self.it.root) + 1:]
        return '%s:%d (%s)' % (p, f.node.lineno, f.qual)


def _content(c):
    if isinstance(c, tuple) and c and c[0] in ('bytes', 'bytearray'):
        return ('bytes', c[1])
    return c


# ------------------------------------------------------------ dependencies
class Deps:
    """Which inputs a value depends on."""

    def __init__(self, it, declassify=None):
        if it.shaping:
            raise Unsupported('dependencies of constants')
        self.it = it
        self.memo = {}
        self.zmemo = {}
        self.ufmemo = {}
        self.declassify = declassify

    def base_in(self, k):
        return frozenset((k[1],))

    def atom(self, i):
        r = self.memo.get(i)
        if r is not None:
            return r
        # iterative over the (acyclic) atom graph
        stack = [i]
        while stack:
            a = stack[-1]
            if a in self.memo:
                stack.pop()
                continue
            k = F.KEYS[a]
            subs = set()
            base = None
            t = k[0]
            if t == 'in':
                base = self.base_in(k)
            elif t == 'm':
                subs = set(k[1])
            elif t == 'and':
                subs = set(F.atoms_of(k[1])) | set(F.atoms_of(k[2]))
            elif t == 'tt':
                m = 0
                for x in F.XS[k[1]]:
                    m |= x
                subs = set(F.atoms_of(m))
            elif t == 'sb':
                m = 0
                for l in F.chain_lists(k[1]):
                    for x in l:
                        m |= x
                subs = set(F.atoms_of(m))
            elif t == 'uf':
                from . import summ
                key = summ.uf_key(k[2])
                base = self.ufmemo.get(k[2])
                if base is None:
                    base = self.ufmemo[k[2]] = self.canon(key)
                if self.declassify is not None:
                    base = self.declassify(k, key, base, self)
            elif t == 'cond':
                base = self.cond(k[1])
            elif t == 'zbit':
                base = self.poly(k[1])
            else:
                base = frozenset((t,))
            if base is None:
                miss = [s for s in subs if s not in self.memo]
                if miss:
                    stack.extend(miss)
                    continue
                base = frozenset().union(*[self.memo[s] for s in subs]) if subs else frozenset()
            self.memo[a] = base
            stack.pop()
        return self.memo[i]

    def form(self, f):
        out = frozenset()
        for i in F.atoms_of(f):
            out |= self.atom(i)
        return out

    def canon(self, c):
        if not isinstance(c, tuple) or not c:
            return frozenset()
        if c[0] == 'i' and len(c) == 2 and isinstance(c[1], tuple):
            m = frozenset()
            for f in c[1]:
                m |= self.form(f)
            return m
        if c[0] == 'z' and len(c) == 2 and isinstance(c[1], tuple):
            return self.poly(c[1])
        if c[0] == 'b' and len(c) == 2 and isinstance(c[1], tuple):
            return self.cond(c[1])
        out = frozenset()
        for x in c:
            if isinstance(x, tuple):
                out |= self.canon(x)
        return out

    def poly(self, p):
        out = frozenset()
        for m, _ in p:
            for a in m:
                out |= self.zat(a)
        return out

    def zat(self, a):
        r = self.zmemo.get(a)
        if r is not None:
            return r
        k = Z.ZKEYS[a]
        t = k[0]
        if t == 'sym':
            out = frozenset((k[1],))
        elif t == 'zb':
            out = frozenset()
            for f in k[1]:
                out |= self.form(f)
        elif t in ('mod', 'inv', 'fdiv', 'bez'):
            out = self.poly(k[1]) | self.poly(k[2])
        elif t == 'zmux':
            out = self.cond(k[1]) | self.poly(k[2]) | self.poly(k[3])
        else:
            out = self.any(k[1:])
        self.zmemo[a] = out
        return out

    def any(self, x):
        out = frozenset()
        if isinstance(x, tuple):
            if Z._is_poly(x) and x:
                return self.poly(x)
            c = self.canon(x)
            if c:
                return c
            for y in x:
                out |= self.any(y)
        return out

    def cond(self, e):
        t = e[0]
        if t == 'not':
            return self.cond(e[1])
        if t == 'and':
            out = frozenset()
            for x in e[1]:
                out |= self.cond(x)
            return out
        if t == 'bit':
            return self.form(e[1])
        if t == 'iszero':
            out = frozenset()
            for f in e[1]:
                out |= self.form(f)
            return out
        if t in ('eq0', 'lt0'):
            return self.poly(e[1])
        if t == 'eqmod':
            return self.poly(e[1]) | self.poly(e[2])
        return frozenset()

    def value(self, v):
        """Inputs that anything reachable from v depends on: {path: inputs}."""
        it = self.it
        out = {}
        seen = set()
        stack = [(v, '')]
        while stack:
            x, path = stack.pop()
            if isinstance(x, Ref):
                if x.addr in seen:
                    continue
                seen.add(x.addr)
                k, p = it.heap[x.addr]
                if k == 'bytearray':
                    d = frozenset()
                    for e in p:
                        if isinstance(e, SInt):
                            d |= self.canon(('i', e.bits))
                    if d:
                        out[path or 'value'] = d
                elif k in ('list', 'set'):
                    stack.extend((y, '%s[%d]' % (path, i)) for i, y in enumerate(p))
                elif k == 'dict':
                    stack.extend((y, '%s[%r]' % (path, kk)) for kk, y in p.items())
                else:
                    stack.extend((y, '%s.%s' % (path, kk)) for kk, y in p[1].items())
                continue
            if isinstance(x, tuple):
                stack.extend((y, '%s[%d]' % (path, i)) for i, y in enumerate(x))
                continue
            if isinstance(x, Bound):
                stack.append((x.self, path + '.__self__'))
                continue
            if isinstance(x, IterVal):
                stack.extend((y, path) for y in x.items)
                continue
            if isinstance(x, Func):
                c = x.closure
                continue
            d = self.canon(it.canon(x))
            if isinstance(x, SStr):
                d = self.any(x.key)
            if d:
                out[path or 'value'] = d
        return out

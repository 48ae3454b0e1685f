"""What a caller holds: the buffers it passed in and the values it got back."""
import random

from ..common import *
from . import sigmodel as SG

MUTABLE = ('bytearray', 'list', 'dict', 'set')


class Args:
    """Builds arguments that belong to the caller and remembers their content."""

    def __init__(self, ctx, kind='bytearray'):
        self.ctx, self.rec, self.kind = ctx, [], kind

    def keep(self, name, ref):
        if isinstance(ref, Ref):
            p = self.ctx.it.payload(ref)
            self.rec.append((name, ref, dict(p) if isinstance(p, dict) else p))
        return ref

    def own(self, fn):
        it = self.ctx.it
        t, it.tag = it.tag, 'caller'
        try:
            return fn()
        finally:
            it.tag = t

    def __call__(self, name, n):
        return self.keep(name, self.own(lambda: self.ctx.sym(name, n, self.kind)))

    def const(self, name, data):
        return self.keep(name, self.own(lambda: self.ctx.arr(tuple(data)) if self.kind == 'bytearray' else bytes(data)))

    def dict(self, name, d):
        return self.keep(name, self.own(lambda: self.ctx.it.new_dict(d)))

    def changed(self, what):
        """Compare every argument with the content it was given."""
        ctx, it = self.ctx, self.ctx.it
        for name, ref, old in self.rec:
            if ref.addr not in it.heap:
                continue
            now = it.payload(ref)
            ctx.items += 1
            if now is old or now == old:
                continue
            where = ''
            for a, tag, w, tr in it.writes:
                if a == ref.addr:
                    where = w
            if isinstance(old, dict):
                if set(old) != set(now):
                    ctx.fail('%s: the dictionary given as %s gets other entries' % (what, name), where)
                    continue
                for k in old:
                    ctx.eq(now[k], old[k], '%s: changes the entry %r of the dictionary given as %s' % (what, k, name), where)
                continue
            if len(old) != len(now):
                ctx.fail('%s: changes the length of the caller\'s %s from %d to %d' % (
                    what, name, len(old), len(now)), where)
                continue
            t = it.tag
            it.tag = 'caller'
            try:
                ctx.eq(ctx.by(now), ctx.by(old), '%s: changes the caller\'s %s' % (what, name), where)
            finally:
                it.tag = t

    def addrs(self):
        out = {}
        for name, ref, _ in self.rec:
            for a in self.ctx.it.reachable(ref):
                out.setdefault(a, name)
        return out

    def mark(self):
        return len(self.rec)

    def back(self, m):
        del self.rec[m:]


def scramble(ctx, addr, tag):
    """Give the mutable object at addr an unrelated content of the same shape."""
    it = ctx.it
    k, p = it.heap[addr]
    if k == 'bytearray':
        it.heap[addr] = (k, tuple(ctx.el(ctx.sym('changed%s' % tag, len(p)))) if p else (0x5a,))
    elif k in ('list', 'set'):
        it.heap[addr] = (k, tuple(x + 1 if isinstance(x, int) and not isinstance(x, bool) else x for x in p)[1:])
    elif k == 'dict':
        it.heap[addr] = (k, {a: (b + 1 if isinstance(b, int) and not isinstance(b, bool) else b) for a, b in p.items()})


def module_reach(ctx):
    """Mutable objects reachable from modules, classes, default arguments and closures of the package."""
    it = ctx.it
    seen = {}

    def of(v, depth=0):
        if isinstance(v, (StaticM, ClassM)):
            v = v.f
        if isinstance(v, PropVal):
            for f in (v.fget, getattr(v, 'fset', None)):
                of(f, depth)
            return
        if isinstance(v, Func):
            for x in list(getattr(v, 'defaults', None) or ()) + list((getattr(v, 'kw_defaults', None) or {}).values()):
                it.reachable(x, seen)
            return
        if isinstance(v, ClassVal):
            if depth < 3:
                for x in v.ns.values():
                    of(x, depth + 1)
            return
        if isinstance(v, (Ref, tuple)):
            it.reachable(v, seen)
    for m in list(it.modules.values()):
        if isinstance(m, ModuleVal) and not m.name.startswith('gsa_'):
            for v in list(m.ns.values()):
                of(v)
    for a, t in it.owner.items():
        if t != 'caller' and a in it.heap:
            it.reachable(Ref(a), seen)
    return seen


def mutables(ctx, v):
    """Mutable containers reachable from a result, not through objects of the package."""
    it = ctx.it
    out = []
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, Ref):
            if x.addr in seen:
                continue
            seen.add(x.addr)
            k, p = it.heap[x.addr]
            if k in MUTABLE:
                out.append(x.addr)
            if k in ('list', 'set'):
                stack.extend(p)
            elif k == 'dict':
                stack.extend(p.values())
        elif isinstance(x, tuple):
            stack.extend(x)
    return out


def unhold(ctx, r):
    return r

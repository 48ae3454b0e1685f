"""Abstract interpreter for the Python subset in which the package is written.

Works on the syntax tree only; nothing of the analysed package is imported or
executed.  See DESIGN.md for the domain.  Conditions that cannot be decided are
first joined (both arms analysed, states merged with gated values); where the
arms do not merge (one raises, returns a value of another shape, ...) the state
is partitioned and both parts are analysed.
"""
import ast
import os
import sys

from . import forms as F
from . import zpoly as Z
from .values import *
from .values import (c_and, c_or, c_not, c_bit, mk_int, bits_of, to_poly, from_poly, zero_cond, allzero_cond,
                     eq0_cond, lt0_cond, form_of_cond, const_bits, bits_to_poly, zbit)

sys.setrecursionlimit(80000)
sys.set_int_max_str_digits(0)


class Unsupported(Exception):
    """The analysis cannot represent this construct."""

    def __init__(self, msg, node=None, interp=None):
        self.msg = msg
        where = ''
        if interp is not None and interp.stack:
            where = ' at %s' % interp.where()
        super().__init__(msg + where)


class Hang(Unsupported):
    """A repetition that does not end."""

    def __init__(self, why, where):
        Exception.__init__(self, '%s at %s' % (why, where))
        self.msg, self.why, self.site = why, why, where


class Same:
    """Equal to the same object only (and keeps it alive)."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Same) and o.v is self.v

    __hash__ = None


class MergeFail(Exception):
    pass


class Abandon(Exception):
    """The current partition is not continued (loop bound)."""


class GenSymbolic(Exception):
    pass


class TargetExc(Exception):
    """An exception of the analysed program."""

    def __init__(self, cls, ref, msg, site, trace):
        self.cls, self.ref, self.msg, self.site, self.trace = cls, ref, msg, site, trace
        super().__init__('%s: %s' % (cls_name(cls), msg))


def cls_name(c):
    return c.name if isinstance(c, ClassVal) else getattr(c, '__name__', str(c))


class Frame:
    __slots__ = ('env', 'func', 'module', 'globals', 'closure', 'yields', 'line', 'owner', 'cells')

    def __init__(self, env, func, module, closure):
        self.env = env
        self.func = func
        self.module = module
        self.closure = closure
        self.globals = None
        self.yields = None
        self.line = 0
        self.owner = None


UNDEF = Opaque('undefined')

NATIVE_TYPES = {
    'int': int, 'str': str, 'bytes': bytes, 'bytearray': bytearray, 'bool': bool, 'list': list, 'tuple': tuple,
    'dict': dict, 'set': set, 'frozenset': frozenset, 'float': float, 'object': object, 'type': type,
    'memoryview': memoryview, 'complex': complex, 'slice': slice, 'range': range,
}
for _n in ('Exception', 'BaseException', 'ValueError', 'TypeError', 'IndexError', 'KeyError', 'AttributeError',
           'ZeroDivisionError', 'OverflowError', 'RuntimeError', 'NotImplementedError', 'StopIteration',
           'AssertionError', 'ArithmeticError', 'LookupError', 'NameError', 'UnboundLocalError', 'RecursionError',
           'OSError', 'MemoryError', 'UnicodeDecodeError', 'UnicodeEncodeError', 'UnicodeError', 'Warning',
           'DeprecationWarning', 'UserWarning', 'GeneratorExit', 'KeyboardInterrupt', 'SystemExit'):
    NATIVE_TYPES[_n] = getattr(__import__('builtins'), _n)


class Interp:
    LOOP_BOUND = 3

    def __init__(self, root='/repo', package='gostcrypto'):
        self.root = root
        self.package = package
        self.modules = {}
        self.heap = {}
        self.next_addr = 1
        self.stack = []
        self.facts = {}
        self.factlist = []
        self.path = []
        self.pos = 0
        self.in_merge = 0
        self.in_gen = 0
        self.rand_count = 0
        self.shaping = False      # the inputs are constants of some shape (no dependencies to look at)
        self.rand_calls = []
        self.timing = None         # list: content-dependent branches and comparisons (C29)
        self.rand_script = None    # (first draw, values): constants the random source yields
        self.owner = {}            # addr -> owner tag (caller / module objects)
        self.tag = None            # tag for new allocations (module objects)
        self.writes = []           # writes to owned objects
        self.uf_table = {}
        self.loop_notes = []
        self.notes = []
        self.stats = {'calls': 0, 'joins': 0, 'partitions': 0, 'functions': set()}
        self.generic_points = False
        self.group = None          # abstract group of points (gsa/group.py)
        self.on_call = None
        self.intrinsics = {}
        self.call_counts = {}
        self.mu_log = []
        self.step_budget = None
        self.steps = 0
        self.loop_limit = 1 << 20  # repetitions of one loop
        self.rand_ignore = None    # draws beyond this one are not progress
        self.loops = {}            # loop -> most repetitions seen
        self.class_writes = []
        self._tables = {}
        self.summ = None           # summaries (None: analyse every call)
        self.track = None          # (reads, addresses) of receiver fields

    # ------------------------------------------------------------ positions
    def where(self):
        if not self.stack:
            return '?'
        f = self.stack[-1]
        mod = f.module
        path = mod.path or mod.name
        if path.startswith(self.root + '/'):
            path = path[len(self.root) + 1:]
        return '%s:%d (%s)' % (path, f.line, f.func.qual if f.func else '<module>')

    def trace(self):
        out = []
        for f in self.stack:
            path = f.module.path or f.module.name
            if path.startswith(self.root + '/'):
                path = path[len(self.root) + 1:]
            out.append('%s:%d %s' % (path, f.line, f.func.qual if f.func else '<module>'))
        return out

    def unsupported(self, msg):
        raise Unsupported(msg, None, self)

    # ------------------------------------------------------------ heap
    def alloc(self, kind, payload):
        a = self.next_addr
        self.next_addr += 1
        self.heap[a] = (kind, payload)
        if self.tag is not None:
            self.owner[a] = self.tag
        return Ref(a)

    def store(self, ref, kind, payload):
        a = ref.addr
        if a in self.owner and self.tag is None:
            old = self.heap[a][1]
            self.writes.append((a, self.owner[a], self.where(), self.trace()))
        self.heap[a] = (kind, payload)
        if self.group is not None and a < self.group.low:
            self.group.low = a

    def kind(self, v):
        return self.heap[v.addr][0]

    def payload(self, v):
        return self.heap[v.addr][1]

    def new_bytearray(self, el):
        return self.alloc('bytearray', tuple(el))

    def new_list(self, el):
        return self.alloc('list', tuple(el))

    def new_dict(self, d):
        return self.alloc('dict', dict(d))

    # ------------------------------------------------------------ facts
    def known(self, e):
        if e == TRUE:
            return True
        if e == FALSE:
            return False
        if e in self.facts:
            return self.facts[e]
        if e[0] == 'not':
            k = self.known(e[1])
            return None if k is None else (not k)
        if e[0] == 'and':
            vals = [self.known(x) for x in e[1]]
            if any(v is False for v in vals):
                return False
            if all(v is True for v in vals):
                return True
            return None
        if e[0] == 'lt0':
            return self._lt0_known(e[1])
        if e[0] in ('eq0', 'eqmod'):
            if self.generic_points:
                r = self._generic(e)
                if r is not None:
                    return r
            if e[0] == 'eq0':
                # sign facts
                if self._lt0_known(e[1]) is True:
                    return False
                if self._lt0_known(Z.neg(e[1])) is True:
                    return False
        return None

    def _generic(self, e):
        """Points written as different multiples of the base point are in
        general position: their coordinates differ."""
        kinds = set()
        p = e[1]
        for m, c in p:
            for a in m:
                k = Z.ZKEYS[a]
                if k[0] != 'pt':
                    return None
                kinds.add(k[1])
        if not kinds:
            return None
        return False

    def _lt0_known(self, p):
        lo, hi = Z.interval(p)
        if lo is not None and lo >= 0:
            return False
        if hi is not None and hi < 0:
            return True
        for f in self.factlist:
            # f: poly known < 0
            d = Z.as_const(Z.sub(p, f))
            if d is not None and d <= 0:
                return True
            d = Z.as_const(Z.add(p, f))
            if d is not None and d >= -1:
                return False
        return None

    def add_fact(self, e, v):
        if e[0] == 'not':
            return self.add_fact(e[1], not v)
        self.facts[e] = v
        if e[0] == 'and' and v:
            for x in e[1]:
                self.add_fact(x, True)
        if e[0] == 'and' and not v:
            rest = [x for x in e[1] if self.known(x) is not True]
            if len(rest) == 1:
                self.add_fact(rest[0], False)
        if e[0] == 'lt0':
            p = e[1]
            self.factlist.append(p if v else Z.sub(Z.neg(p), Z.const(1)))
        if e[0] == 'eq0' and not v:
            p = e[1]
            lo, hi = Z.interval(p)
            if lo == 0:
                self.factlist.append(Z.neg(p))
            elif hi == 0:
                self.factlist.append(p)
        if e[0] == 'eqmod' and not v:
            # p mod m != 0: for 0 <= p this gives p > 0
            p = e[1]
            lo, hi = Z.interval(p)
            if lo == 0:
                self.factlist.append(Z.neg(p))
            md = Z.mod(p, e[2])
            if md != p:
                self.factlist.append(Z.neg(md))
        if e[0] == 'bit' and v:
            f = e[1]
            if not (f & (f - 1)):
                k = F.KEYS[f.bit_length() - 1]
                if k[0] == 'cond':
                    self.add_fact(k[1], True)
        if e[0] == 'bit' and not v:
            f = e[1]
            if not (f & (f - 1)):
                k = F.KEYS[f.bit_length() - 1]
                if k[0] == 'cond':
                    self.add_fact(k[1], False)

    def decide(self, e):
        k = self.known(e)
        if k is not None:
            return k
        if self.in_gen:
            raise GenSymbolic()
        if self.timing is not None:
            self.timing.append(('branch', e, self.where()))
        if self.in_merge:
            raise MergeFail()
        if self.pos < len(self.path):
            v = self.path[self.pos]
        else:
            v = True
            self.path.append(True)
            self.stats['partitions'] += 1
        self.pos += 1
        self.add_fact(e, v)
        return v

    def explore(self, fn, max_paths=512):
        """Run fn() for every partition; yields (outcome, facts)."""
        self.path = []
        results = []
        base = self.snapshot()
        base_facts = (dict(self.facts), list(self.factlist))
        n = 0
        while True:
            self.restore(base)
            self.facts, self.factlist = dict(base_facts[0]), list(base_facts[1])
            self.pos = 0
            try:
                out = ('ok', fn())
            except TargetExc as exc:
                exc.text = self.exc_text(exc)
                out = ('exc', exc)
            except Abandon as exc:
                out = ('abandon', exc)
            state = (self.snapshot(), dict(self.facts), list(self.factlist))
            results.append((out, state))
            n += 1
            if n > max_paths:
                self.unsupported('too many partitions')
            del self.path[self.pos:]
            while self.path and self.path[-1] is False:
                self.path.pop()
            if not self.path:
                break
            self.path[-1] = False
        self.path = []
        self.pos = 0
        self.restore(base)
        self.facts, self.factlist = dict(base_facts[0]), list(base_facts[1])
        return results

    # ------------------------------------------------------------ snapshots
    def snapshot(self):
        return (dict(self.heap), [(f, dict(f.env)) for f in self.stack], self.rand_count,
                [(m, dict(m.ns)) for m in self.modules.values() if isinstance(m, ModuleVal)], list(self.rand_calls))

    def restore(self, s):
        self.heap = dict(s[0])
        self.stack = [f for f, _ in s[1]]
        for f, env in s[1]:
            f.env = dict(env)
        self.rand_count = s[2]
        for m, ns in s[3]:
            m.ns = dict(ns)
        self.rand_calls = list(s[4])

    def try_merge(self, cond, run_a, run_b):
        """Analyse both arms and join. Returns the joined result or raises MergeFail."""
        if self.timing is not None:
            self.timing.append(('branch', cond, self.where()))
        base = self.snapshot()
        facts = (dict(self.facts), list(self.factlist))
        depth = len(self.stack)
        self.in_merge += 1
        try:
            def arm(run, val):
                self.facts, self.factlist = dict(facts[0]), list(facts[1])
                self.add_fact(cond, val)
                r = run()
                return r, self.snapshot()
            try:
                ra, sa = arm(run_a, True)
                self.restore(base)
                rb, sb = arm(run_b, False)
            except (TargetExc, Abandon, GenSymbolic):
                raise MergeFail()
            self.facts, self.factlist = dict(facts[0]), list(facts[1])
            m = Merger(self, cond, base, sa, sb)
            res = m.result(ra, rb)
            m.apply()
            self.stats['joins'] += 1
            return res
        except MergeFail:
            self.facts, self.factlist = facts
            del self.stack[depth:]
            self.restore(base)
            raise
        finally:
            self.in_merge -= 1

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace('.', '/')
        path = os.path.join(self.root, rel, '__init__.py')
        is_pkg = True
        if not os.path.exists(path):
            path = os.path.join(self.root, rel + '.py')
            is_pkg = False
        if not (name == self.package or name.startswith(self.package + '.')) or not os.path.exists(path):
            if name == self.package or name.startswith(self.package + '.'):
                raise Unsupported('module %s not found' % name)
            m = StubModule(name)
            self.modules[name] = m
            return m
        parent = None
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
            if name in self.modules:
                return self.modules[name]
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        m = ModuleVal(name, path)
        m.is_pkg = is_pkg
        m.tree = tree
        m.ns['__name__'] = name
        m.ns['__file__'] = path
        m.ns['__doc__'] = None
        self.modules[name] = m
        self.exec_module(m, tree)
        if parent is not None and isinstance(parent, ModuleVal):
            parent.ns[name.rpartition('.')[2]] = m
        return m

    def load_source(self, name, src, path):
        tree = ast.parse(src, path)
        m = ModuleVal(name, path)
        m.is_pkg = False
        m.tree = tree
        m.ns['__name__'] = name
        self.modules[name] = m
        self.exec_module(m, tree)
        return m

    def exec_module(self, m, tree):
        old = self.tag
        self.tag = 'module:' + m.name
        fr = Frame(m.ns, None, m, None)
        self.stack.append(fr)
        try:
            self.exec_block(tree.body, fr)
        finally:
            self.stack.pop()
            self.tag = old
        m.ns = fr.env

    # ------------------------------------------------------------ exceptions
    def throw(self, cls, msg=''):
        ref = self.alloc('obj', (cls, {'args': (msg,)}))
        raise TargetExc(cls, ref, msg, self.where(), self.trace())

    def exc_text(self, exc):
        """str(exception)"""
        ref = exc.ref
        if isinstance(ref, Ref) and ref.addr in self.heap:
            if isinstance(exc.cls, ClassVal):
                f, owner = self.class_lookup(exc.cls, '__str__')
                if isinstance(f, Func):
                    try:
                        r = self.call(Bound(f, ref), [], {})
                        if isinstance(r, str):
                            return r
                    except (TargetExc, Unsupported):
                        pass
            args = self.payload(ref)[1].get('args', ())
            if len(args) == 1:
                return args[0] if isinstance(args[0], str) else repr(args[0])
            if len(args) > 1:
                return repr(args)
            return ''
        return exc.msg

    def is_subclass(self, c, d):
        if d is object:
            return True
        if isinstance(c, ClassVal):
            for k in self.mro(c):
                if k is d:
                    return True
                if not isinstance(k, ClassVal) and isinstance(k, type) and isinstance(d, type) and issubclass(k, d):
                    return True
            return False
        if isinstance(c, type) and isinstance(d, type):
            return issubclass(c, d)
        return c is d

    def mro(self, c):
        if not isinstance(c, ClassVal):
            return [c]
        if c.mro is not None:
            return c.mro

        def merge(seqs):
            res = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    self.unsupported('inconsistent mro')
                res.append(h)
                seqs = [[x for x in s if x is not h] if s[0] is h else s for s in seqs]
                seqs = [s for s in seqs if s]
            return res
        bases = [b for b in c.bases if not isinstance(b, Opaque) and b is not object]
        c.mro = [c] + merge([self.mro(b) for b in bases] + [list(bases)])
        return c.mro

    def class_lookup(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassVal) and name in k.ns:
                return k.ns[name], k
        return None, None

    # ------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for s in body:
            r = self.exec_stmt(s, fr)
            if r is not None:
                return r
        return None

    def exec_stmt(self, s, fr):
        fr.line = s.lineno
        self.steps += 1
        if self.step_budget is not None and self.steps > self.step_budget:
            raise Unsupported('step budget exceeded', None, self)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unsupported('statement %s' % type(s).__name__)
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        return None

    def s_Return(self, s, fr):
        return ('ret', None if s.value is None else self.eval(s.value, fr))

    def s_Break(self, s, fr):
        return 'brk'

    def s_Continue(self, s, fr):
        return 'cont'

    def s_Global(self, s, fr):
        if fr.globals is None:
            fr.globals = set()
        fr.globals.update(s.names)

    def s_Nonlocal(self, s, fr):
        if fr.globals is None:
            fr.globals = set()
        fr.globals.update('nonlocal:' + n for n in s.names)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(t.id, fr)
            self.assign(t, self.inplace(s.op, old, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, old, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            old = self.getitem(o, i)
            self.setitem(o, i, self.inplace(s.op, old, self.eval(s.value, fr)))
        else:
            self.unsupported('augmented assignment target')

    def inplace(self, op, a, b):
        if isinstance(a, Ref):
            k = self.kind(a)
            if isinstance(op, ast.Add) and k in ('bytearray', 'list'):
                items = self.byte_items(b) if k == 'bytearray' else self.iterate(b)
                if items is None:
                    self.throw(TypeError, "can't concat")
                self.store(a, k, self.payload(a) + tuple(items))
                return a
            if isinstance(op, ast.Mult) and k in ('bytearray', 'list') and isinstance(b, int):
                self.store(a, k, self.payload(a) * b)
                return a
            if k == 'obj':
                nm = {'Add': '__iadd__', 'BitXor': '__ixor__', 'Sub': '__isub__'}.get(type(op).__name__)
                if nm:
                    f, _ = self.class_lookup(self.payload(a)[0], nm)
                    if f is not None:
                        return self.call(Bound(f, a), [b], {})
        return self.binop(op, a, b)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, Ref) and self.kind(o) == 'obj':
                    cls, fl = self.payload(o)
                    fl = dict(fl)
                    if t.attr not in fl:
                        self.throw(AttributeError, t.attr)
                    del fl[t.attr]
                    self.store(o, 'obj', (cls, fl))
                else:
                    self.unsupported('del attribute')
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                i = self.eval_index(t.slice, fr)
                k = self.kind(o) if isinstance(o, Ref) else None
                if k in ('list', 'bytearray'):
                    l = list(self.payload(o))
                    try:
                        del l[i]
                    except IndexError:
                        self.throw(IndexError, 'index out of range')
                    self.store(o, k, tuple(l))
                elif k == 'dict':
                    d = dict(self.payload(o))
                    if i not in d:
                        self.throw(KeyError, repr(i))
                    del d[i]
                    self.store(o, 'dict', d)
                else:
                    self.unsupported('del item')

    def s_Assert(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        if isinstance(c, SBool):
            c = self.decide(c.expr)
        if not c:
            self.throw(AssertionError, '')

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(self, 'current_exc', None)
            if cur is None:
                self.throw(RuntimeError, 'No active exception to reraise')
            raise cur
        v = self.eval(s.exc, fr)
        if isinstance(v, ClassVal) or isinstance(v, type):
            v = self.call(v, [], {})
        if not isinstance(v, Ref) or self.kind(v) != 'obj':
            self.throw(TypeError, 'exceptions must derive from BaseException')
        cls, fl = self.payload(v)
        args = fl.get('args', ())
        msg = args[0] if args else ''
        raise TargetExc(cls, v, msg if isinstance(msg, str) else repr(msg), self.where(), self.trace())

    def s_Try(self, s, fr):
        depth = len(self.stack)
        code = None
        pending = None
        try:
            code = self.exec_block(s.body, fr)
            if code is None and s.orelse:
                code = self.exec_block(s.orelse, fr)
        except TargetExc as exc:
            del self.stack[depth:]
            pending = exc
        except (MergeFail, Abandon, GenSymbolic, Unsupported):
            raise
        if pending is not None:
            for h in s.handlers:
                if h.type is None:
                    match = True
                else:
                    t = self.eval(h.type, fr)
                    ts = t if isinstance(t, tuple) else (t,)
                    match = any(self.is_subclass(pending.cls, x) for x in ts)
                if match:
                    exc = pending
                    pending = None
                    old = getattr(self, 'current_exc', None)
                    self.current_exc = exc
                    if h.name:
                        fr.env[h.name] = exc.ref
                    try:
                        code = self.exec_block(h.body, fr)
                    except TargetExc as e2:
                        del self.stack[depth:]
                        pending = e2
                    finally:
                        self.current_exc = old
                    break
        if s.finalbody:
            c2 = self.exec_block(s.finalbody, fr)
            if c2 is not None:
                return c2
        if pending is not None:
            raise pending
        return code

    def s_With(self, s, fr):
        exits = []
        for item in s.items:
            cm = self.eval(item.context_expr, fr)
            v = cm
            if isinstance(cm, Ref) and self.kind(cm) == 'obj':
                v = self.call(self.getattr(cm, '__enter__'), [], {})
                exits.append(cm)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, fr)
        depth = len(self.stack)
        try:
            code = self.exec_block(s.body, fr)
        except TargetExc as exc:
            del self.stack[depth:]
            supp = False
            for cm in reversed(exits):
                r = self.call(self.getattr(cm, '__exit__'), [exc.cls, exc.ref, None], {})
                if r is True:
                    supp = True
            if not supp:
                raise
            return None
        for cm in reversed(exits):
            self.call(self.getattr(cm, '__exit__'), [None, None, None], {})
        return code

    def s_If(self, s, fr):
        c = self.truth(self.eval(s.test, fr))
        if isinstance(c, SBool):
            k = self.known(c.expr)
            if k is None:
                try:
                    return self.try_merge(c.expr, lambda: self.exec_block(s.body, fr),
                                          lambda: self.exec_block(s.orelse, fr))
                except MergeFail:
                    pass
                k = self.decide(c.expr)
            c = k
        return self.exec_block(s.body if c else s.orelse, fr)

    # ------------------------------------------------------------ endless repetition
    def state_key(self):
        """Everything the rest of the current call can depend on."""
        num = {}
        todo = []

        def val(v):
            if isinstance(v, Ref):
                if v.addr not in num:
                    num[v.addr] = len(num)
                    todo.append(v)
                return ('ref', num[v.addr])
            if isinstance(v, (tuple, list)):
                return ('t',) + tuple(val(x) for x in v)
            if isinstance(v, bool) or v is None or isinstance(v, (int, str, float, bytes)):
                return (type(v).__name__, v)
            if isinstance(v, Bound):
                return ('bound', Same(v.f), val(v.self))
            if isinstance(v, IterVal):
                return ('iter', val(v.items[v.pos:]), v.endless is None)
            if isinstance(v, (SBytes, SInt, ZInt, SBool, SStr, RangeVal)):
                return ('v', self.canon(v))
            if isinstance(v, dict):
                return ('d',) + tuple((k, val(x)) for k, x in sorted(v.items()))
            return ('o', Same(v), getattr(v, 'pos', None))
        r = self.rand_count
        if self.rand_ignore is not None:
            r = min(r, self.rand_ignore)
        out = [r, len(self.writes), len(self.class_writes), len(self.factlist), len(self.rand_calls) if self.rand_ignore is None else 0]
        for fr in self.stack:
            out.append((Same(fr), val(dict(fr.env))))
            c = fr.closure
            while c is not None and hasattr(c, 'env'):
                out.append(val(dict(c.env)))
                c = getattr(c, 'closure', None)
        for m in self.modules.values():
            if isinstance(m, ModuleVal):
                for k, v in m.ns.items():
                    if isinstance(v, ClassVal):
                        out.append((m.name, k, tuple((a, x) for a, x in v.ns.items() if isinstance(x, (int, str, bytes)))))
                    elif v is None or isinstance(v, (int, str, bytes)):
                        out.append((m.name, k, v))
        while todo:
            v = todo.pop()
            k, p = self.heap[v.addr]
            if k == 'obj':
                out.append((num[v.addr], Same(p[0]), val(p[1])))
            elif k == 'dict':
                out.append((num[v.addr], k, tuple((repr(a), val(b)) for a, b in p.items())))
            elif k == 'set':
                out.append((num[v.addr], k, tuple(sorted(map(repr, p)))))
            else:
                out.append((num[v.addr], k, tuple(val(x) for x in p)))
        return tuple(out)

    def tick(self, s, fr, n, st):
        """Called at the head of every repetition of a loop whose number of repetitions is not fixed beforehand."""
        key = (fr.module.name, s.lineno)
        if n > self.loops.get(key, 0):
            self.loops[key] = n
        if n > self.loop_limit:
            raise Hang('the loop is repeated more than %d times' % self.loop_limit, self.where())
        if n < 48 or st is None:
            return
        if not st:
            st += [n, self.state_key(), 0]
            return
        if n > 2 * st[0] + 48:
            st[:2] = [n, self.state_key()]
            return
        if n - st[0] <= 64 and st[2] < 4096 and self.state_key() == st[1]:
            raise Hang('the loop repeats the same state for ever', self.where())
        st[2] += 1

    def s_While(self, s, fr):
        n = 0
        turns, state = 0, []
        while True:
            fr.line = s.lineno
            turns += 1
            self.tick(s, fr, turns, state)
            c = self.truth(self.eval(s.test, fr))
            sym = False
            if isinstance(c, SBool):
                k = self.known(c.expr)
                if k is None:
                    if self.in_gen:
                        raise GenSymbolic()
                    if n == 0 and self._loop_carried(s, fr, c.expr):
                        return self.havoc_loop(s, fr, ('while', self._vals_of(s.test, fr)), s.test)
                    sym = True
                    n += 1
                    if n > self.LOOP_BOUND:
                        if self.in_merge:
                            raise MergeFail()
                        raise Abandon('loop bound at %s' % self.where())
                    k = self.decide(c.expr)
                c = k
            if not c:
                if s.orelse:
                    return self.exec_block(s.orelse, fr)
                return None
            pos, drawn = self.pos, self.rand_count
            r = self.exec_block(s.body, fr)
            if r == 'brk':
                return None
            if r is not None and r != 'cont':
                return r
            if isinstance(s.test, ast.Constant) and self.pos > pos and self.rand_count > drawn:
                # another value is drawn because of the value of this one
                n += 1
                if n > self.LOOP_BOUND:
                    raise Abandon('loop bound at %s' % self.where())

    def _vals_of(self, node, fr):
        out = []
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in fr.env:
                out.append((n.id, self.canon(fr.env[n.id])))
        return tuple(out)

    def _loop_carried(self, s, fr, expr):
        """The loop condition after one iteration is a function of the loop
        condition's own variables before it (shift/divide loops)."""
        names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
        stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        cand = names & stored
        for b in s.body:
            for n in ast.walk(b):
                tgt = None
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    tgt, loads = n.target.id, {n.target.id} | {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tg = n.targets[0]
                    tgs = [tg] if isinstance(tg, ast.Name) else ([e for e in tg.elts if isinstance(e, ast.Name)]
                                                                if isinstance(tg, ast.Tuple) else [])
                    loads = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                    for e in tgs:
                        if e.id in cand and (e.id in loads or (len(tgs) > 1 and cand & loads)):
                            return True
                    continue
                else:
                    continue
                if tgt in cand and tgt in loads:
                    return True
        return False

    def havoc_loop(self, s, fr, key, seqnode):
        """Summarise a loop of unknown length: every variable it assigns becomes
        an uninterpreted function of everything the loop reads."""
        body = s.body
        loads, stores = [], []
        selfs = False
        for b in list(body) + [s.test if isinstance(s, ast.While) else s.iter]:
            for n in ast.walk(b):
                if isinstance(n, ast.Name):
                    if isinstance(n.ctx, ast.Store):
                        if n.id not in stores:
                            stores.append(n.id)
                    elif n.id not in loads:
                        loads.append(n.id)
                elif isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, ast.Store):
                    self.unsupported('unbounded loop storing to an object')
        if isinstance(s, ast.For):
            for n in ast.walk(s.target):
                if isinstance(n, ast.Name) and n.id not in stores:
                    stores.append(n.id)
        if 'self' in loads:
            loads.remove('self')
            selfs = True
        inputs = []
        for n in sorted(loads):
            if n in fr.env:
                v = fr.env[n]
                if isinstance(v, (Func, ClassVal, Builtin, Bound)):
                    continue
                inputs.append((n, self.canon(v)))
        polys = []
        for n in sorted(loads):
            if n in fr.env:
                p = to_poly(fr.env[n])
                if p is not None:
                    polys.append(p)
        if isinstance(key, tuple):
            for k in key[1] if key[0] == 'seq' else ():
                polys.append(k)
        if selfs:
            o = fr.env.get('self')
            if isinstance(o, Ref) and self.kind(o) == 'obj':
                fl = self.payload(o)[1]
                inputs.append(('self', tuple((k, self.canon(v)) for k, v in sorted(fl.items())
                                             if isinstance(v, (int, SInt, ZInt)))))
        site = (fr.module.name, fr.func.qual if fr.func else '', s.lineno)
        inkey = (site, key, tuple(inputs))
        self.mu_log.append({'site': self.where(), 'polys': polys, 'key': inkey, 'call': self.trace()})
        names = [n for n in stores]
        init = {n: fr.env.get(n) for n in names}
        for n in names:
            v = init[n]
            if v is not None and to_poly(v) is None:
                self.unsupported('unbounded loop over a value that is not an integer (%s)' % n)
        # ranges: analyse the body once from unknown values
        ranges = {n: (None, None) for n in names}
        try:
            snap = self.snapshot()
            facts = (dict(self.facts), list(self.factlist))
            self.in_merge += 1
            try:
                if isinstance(s, ast.For):
                    for n in ast.walk(s.target):
                        if isinstance(n, ast.Name):
                            fr.env[n.id] = ZInt(Z.zatom(('el', inkey, n.id), 0, None))
                for n in names:
                    if not (isinstance(s, ast.For) and any(isinstance(t, ast.Name) and t.id == n
                                                           for t in ast.walk(s.target))):
                        fr.env[n] = ZInt(Z.zatom(('hv', inkey, n)))
                self.exec_block(body, fr)
                for n in names:
                    v = fr.env.get(n)
                    p = to_poly(v) if v is not None else None
                    if p is None:
                        continue
                    lo, hi = Z.interval(p)
                    if len(p) == 1 and len(p[0][0]) == 1 and Z.ZKEYS[p[0][0][0]][0] == 'zmux':
                        pass
                    hv = Z.zatom(('hv', inkey, n))
                    lo, hi = self._range_except(p, hv)
                    if init[n] is not None:
                        l2, h2 = Z.interval(to_poly(init[n]))
                        lo = None if lo is None or l2 is None else min(lo, l2)
                        hi = None if hi is None or h2 is None else max(hi, h2)
                    ranges[n] = (lo, hi)
            finally:
                self.in_merge -= 1
                self.restore(snap)
                self.facts, self.factlist = facts
        except (MergeFail, TargetExc, Abandon, Unsupported, GenSymbolic):
            pass
        for n in names:
            lo, hi = ranges[n]
            fr.env[n] = ZInt(Z.zatom(('mu', inkey, n), lo, hi))
        return None

    def _range_except(self, p, hv):
        """Interval of p where the loop variable itself (hv) may be left as is."""
        if p == hv:
            return (float('inf'), float('-inf'))
        if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 1:
            k = Z.ZKEYS[p[0][0][0]]
            if k[0] == 'zmux':
                a = self._range_except(k[2], hv)
                b = self._range_except(k[3], hv)
                lo = None if a[0] is None or b[0] is None else min(a[0], b[0])
                hi = None if a[1] is None or b[1] is None else max(a[1], b[1])
                return lo, hi
        return Z.interval(p)

    def s_For(self, s, fr):
        it = self.eval(s.iter, fr)
        if isinstance(it, SymSeq):
            return self.havoc_loop(s, fr, ('seq', it.key), s.iter)
        endless = getattr(it, 'endless', None)
        inf = type(it).__name__ == 'InfIter'
        items = () if inf else self.iterate(it, True)
        live = isinstance(it, Ref) and self.kind(it) == 'list'
        i = 0
        n = len(items)
        pos_iter = isinstance(it, IterVal)
        state = []
        while True:
            if live:
                cur = self.payload(it)
                if i >= len(cur):
                    break
                v = cur[i]
                if i >= n:
                    self.tick(s, fr, i - n + 1, state)
            elif inf:
                self.tick(s, fr, i + 1, None)
                v = it.take(1)[0]
            else:
                if i >= n:
                    if endless is not None:
                        raise endless
                    break
                v = items[i]
            i += 1
            if pos_iter:
                it.pos = min(it.pos + 1, len(it.items))
            fr.line = s.lineno
            self.assign(s.target, v, fr)
            r = self.exec_block(s.body, fr)
            if r == 'brk':
                return None
            if r is not None and r != 'cont':
                return r
        if s.orelse:
            return self.exec_block(s.orelse, fr)
        return None

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.load(a.name)
            if a.asname:
                fr.env[a.asname] = m
            else:
                top = a.name.split('.')[0]
                fr.env[top] = self.load(top)

    def s_ImportFrom(self, s, fr):
        name = s.module or ''
        if s.level:
            base = fr.module.name.split('.')
            if not getattr(fr.module, 'is_pkg', False):
                base = base[:-1]
            if s.level > 1:
                base = base[:-(s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if name == '__future__':
            return
        m = self.load(name)
        for a in s.names:
            if a.name == '*':
                if isinstance(m, ModuleVal):
                    allv = m.ns.get('__all__')
                    names = self.iterate(allv) if allv is not None else [k for k in m.ns if not k.startswith('_')]
                    for k in names:
                        fr.env[k] = m.ns[k]
                continue
            if isinstance(m, ModuleVal):
                if a.name in m.ns:
                    v = m.ns[a.name]
                else:
                    v = self.load(name + '.' + a.name)
            else:
                v = self.stub_attr(m, a.name)
            fr.env[a.asname or a.name] = v

    def s_FunctionDef(self, s, fr):
        f = self.make_func(s, fr)
        for d in reversed(s.decorator_list):
            dv = self.eval(d, fr)
            f = self.call(dv, [f], {})
        self.bind_name(s.name, f, fr)

    s_AsyncFunctionDef = None

    def make_func(self, node, fr, name=None):
        f = Func()
        f.node = node
        f.module = fr.module
        f.closure = fr if fr.func is not None else None
        f.name = name or getattr(node, 'name', '<lambda>')
        pre = ''
        if fr.func is None and fr.owner:
            pre = fr.owner + '.'
        elif fr.func is not None:
            pre = fr.func.qual + '.'
        f.qual = pre + f.name
        a = node.args
        f.defaults = [self.eval(d, fr) for d in a.defaults]
        f.kwdefaults = {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        f.owner = None
        body = node.body if isinstance(node.body, list) else []
        f.is_gen = _has_yield(body)
        return f

    def s_ClassDef(self, s, fr):
        bases = [self.eval(b, fr) for b in s.bases]
        ns = {}
        cf = Frame(ns, None, fr.module, fr if fr.func is not None else fr.closure)
        cf.owner = s.name
        cf.line = s.lineno
        cf.env = ns
        self.stack.append(cf)
        try:
            # class bodies see the enclosing function scope and the module
            self.exec_block(s.body, cf)
        finally:
            self.stack.pop()
        c = ClassVal(s.name, bases, cf.env, fr.module)
        c.site = (fr.module, s.lineno)
        for v in c.ns.values():
            g = v
            if isinstance(v, (StaticM, ClassM)):
                g = v.f
            elif isinstance(v, PropVal):
                for h in (v.fget, v.fset):
                    if isinstance(h, Func) and h.owner is None:
                        h.owner = c
                continue
            if isinstance(g, Func) and g.owner is None:
                g.owner = c
        res = c
        for d in reversed(s.decorator_list):
            res = self.call(self.eval(d, fr), [res], {})
        self.bind_name(s.name, res, fr)

    def bind_name(self, name, v, fr):
        if fr.globals:
            if name in fr.globals:
                fr.module.ns[name] = v
                if self.tag is None:
                    self.writes.append((None, 'module:' + fr.module.name, self.where(), self.trace()))
                return
            if 'nonlocal:' + name in fr.globals:
                g = fr.closure
                while g is not None:
                    if name in g.env:
                        g.env[name] = v
                        return
                    g = g.closure
        fr.env[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if fr.globals:
                self.bind_name(t.id, v, fr)
            else:
                fr.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    self.throw(ValueError, 'not enough values to unpack')
                parts = list(items[:i]) + [self.new_list(items[i:len(items) - after])] + \
                    list(items[len(items) - after:] if after else [])
                for e, x in zip(t.elts, parts):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(items) != len(t.elts):
                self.throw(ValueError, 'wrong number of values to unpack')
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.new_list(self.iterate(v)), fr)
        else:
            self.unsupported('assignment target')

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def load_name(self, name, fr):
        env = fr.env
        if name in env:
            if fr.globals and (name in fr.globals):
                return fr.module.ns[name]
            return env[name]
        g = fr.closure
        while g is not None:
            if name in g.env:
                return g.env[name]
            g = g.closure
        ns = fr.module.ns
        if name in ns:
            return ns[name]
        if fr.func is None and self.stack and self.stack[0].module is fr.module:
            pass
        # class body or module being executed: the module frame's env is the namespace
        for f in self.stack:
            if f.module is fr.module and f.func is None and f.owner is None and name in f.env:
                return f.env[name]
        return self.builtin_name(name)

    def builtin_name(self, name):
        if name in NATIVE_TYPES:
            return NATIVE_TYPES[name]
        if name == '__class__':
            return None
        if name in self.intrinsics:
            return Builtin(name, self.intrinsics[name])
        fn = getattr(self, 'b_' + name, None)
        if fn is not None:
            return Builtin(name, fn)
        if name == 'NotImplemented':
            return NotImplemented
        if name == 'Ellipsis':
            return Ellipsis
        self.throw(NameError, "name '%s' is not defined" % name)

    def e_Tuple(self, e, fr):
        return tuple(self.eval_items(e.elts, fr))

    def e_List(self, e, fr):
        return self.new_list(self.eval_items(e.elts, fr))

    def e_Set(self, e, fr):
        out = []
        for v in self.eval_items(e.elts, fr):
            if v not in out:
                out.append(v)
        return self.alloc('set', tuple(out))

    def eval_items(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                d.update(self.payload(o))
            else:
                kv = self.eval(k, fr)
                d[self.hashkey(kv)] = self.eval(v, fr)
        return self.new_dict(d)

    def hashkey(self, k):
        if isinstance(k, (SInt, ZInt, SBytes, SBool)):
            self.unsupported('symbolic dictionary key')
        if isinstance(k, Ref) and self.kind(k) in ('bytearray', 'list', 'dict', 'set'):
            self.throw(TypeError, 'unhashable type')
        return k

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr)

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        if isinstance(c, SBool):
            k = self.known(c.expr)
            if k is None:
                try:
                    return self.try_merge(c.expr, lambda: ('ret', self.eval(e.body, fr)),
                                          lambda: ('ret', self.eval(e.orelse, fr)))[1]
                except MergeFail:
                    pass
                k = self.decide(c.expr)
            c = k
        return self.eval(e.body if c else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        is_and = isinstance(e.op, ast.And)
        v = self.eval(e.values[0], fr)
        return self._boolop(v, e.values[1:], is_and, fr)

    def _boolop(self, v, rest, is_and, fr):
        if not rest:
            return v
        c = self.truth(v)
        if isinstance(c, SBool):
            k = self.known(c.expr)
            if k is None:
                # both operands are boolean conditions: join
                cond = c.expr if is_and else c_not(c.expr)

                def run():
                    return ('ret', self.truth(self._boolop(self.eval(rest[0], fr), rest[1:], is_and, fr)))

                if isinstance(v, (SBool, bool)):
                    try:
                        r = self.try_merge(cond, run, lambda: ('ret', not is_and))
                        return r[1]
                    except MergeFail:
                        pass
                k = self.decide(c.expr)
            c = k
        if is_and:
            if not c:
                return v
        elif c:
            return v
        return self._boolop(self.eval(rest[0], fr), rest[1:], is_and, fr)

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        op = e.op
        if isinstance(op, ast.Not):
            c = self.truth(v)
            if isinstance(c, SBool):
                return self.mkbool(c_not(c.expr))
            return not c
        if isinstance(v, (int, float)):
            if isinstance(op, ast.USub):
                return -v
            if isinstance(op, ast.UAdd):
                return +v
            return ~v
        if isinstance(op, ast.USub):
            return from_poly(Z.neg(to_poly(v)))
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            return from_poly(Z.sub(Z.neg(to_poly(v)), Z.const(1)))
        self.unsupported('unary')

    def mkbool(self, e):
        if e == TRUE:
            return True
        if e == FALSE:
            return False
        k = self.known(e)
        if k is not None:
            return k
        return SBool(e)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            r = self.compare(op, left, right)
            if r is False:
                return False
            if res is True:
                res = r
            elif r is not True:
                res = self.mkbool(c_and([res.expr, r.expr]))
                if res is False:
                    return False
            left = right
        return res

    def e_Call(self, e, fr):
        f = self.eval_callee(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.eval(k.value, fr)
                kw.update(self.payload(o))
            else:
                kw[k.arg] = self.eval(k.value, fr)
        fr.line = e.lineno
        if isinstance(f, Builtin) and f.name == 'super':
            if args:
                return SuperVal(args[0], args[1])
            g = fr
            while g is not None and (g.func is None or g.func.owner is None):
                g = g.closure
            if g is None:
                self.unsupported('super outside a method')
            first = g.func.node.args.args[0].arg
            return SuperVal(g.func.owner, g.env[first])
        if isinstance(f, Builtin) and f.name in ('locals', 'globals', 'vars', 'eval', 'exec'):
            self.unsupported(f.name)
        return self.call(f, args, kw)

    def eval_callee(self, node, fr):
        return self.eval(node, fr)

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        fr.line = e.lineno
        return self.getattr(o, e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        i = self.eval_index(e.slice, fr)
        fr.line = e.lineno
        return self.getitem(o, i)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            def b(x):
                if x is None:
                    return None
                v = self.eval(x, fr)
                if isinstance(v, (SInt, ZInt, SBool)):
                    self.unsupported('symbolic slice bound')
                return v
            return slice(b(s.lower), b(s.upper), b(s.step))
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = ''
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, fr)
                if isinstance(x, (int, str, float, bool, type(None), tuple)) and isinstance(spec, str) and \
                        not isinstance(x, tuple):
                    if v.conversion == 114:
                        x = repr(x)
                    parts.append(format(x, spec))
                else:
                    parts.append(SStr(('fmt', self.canon(x), spec)))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return self.join_strs('', parts)

    def e_FormattedValue(self, e, fr):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), fr)

    def e_Starred(self, e, fr):
        self.unsupported('starred expression')

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.eval(e.value, fr)
        g = fr
        if g.yields is None:
            self.unsupported('yield outside a generator')
        g.yields.append(v)
        return None

    def e_YieldFrom(self, e, fr):
        fr.yields.extend(self.iterate(self.eval(e.value, fr)))
        return None

    def comp(self, gens, fr, emit):
        cf = Frame({}, fr.func, fr.module, fr)
        cf.line = fr.line
        if fr.func is None:
            cf.closure = fr

        def rec(i):
            if i == len(gens):
                emit(cf)
                return
            g = gens[i]
            it = self.eval(g.iter, fr if i == 0 else cf)
            if isinstance(it, SymSeq):
                self.unsupported('comprehension over a sequence of unknown length')
            for v in self.iterate(it):
                self.assign(g.target, v, cf)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.eval(c, cf))
                    if isinstance(t, SBool):
                        t = self.decide(t.expr)
                    if not t:
                        ok = False
                        break
                if ok:
                    rec(i + 1)
        self.stack.append(cf)
        try:
            rec(0)
        finally:
            if self.stack and self.stack[-1] is cf:
                self.stack.pop()

    def e_ListComp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda cf: out.append(self.eval(e.elt, cf)))
        return self.new_list(out)

    def e_GeneratorExp(self, e, fr):
        out = []
        self.comp(e.generators, fr, lambda cf: out.append(self.eval(e.elt, cf)))
        return IterVal(out)

    def e_SetComp(self, e, fr):
        out = []

        def emit(cf):
            v = self.eval(e.elt, cf)
            if v not in out:
                out.append(v)
        self.comp(e.generators, fr, emit)
        return self.alloc('set', tuple(out))

    def e_DictComp(self, e, fr):
        d = {}

        def emit(cf):
            k = self.hashkey(self.eval(e.key, cf))
            d[k] = self.eval(e.value, cf)
        self.comp(e.generators, fr, emit)
        return self.new_dict(d)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if v is None or v is NotImplemented:
            return False
        if isinstance(v, (bool, int, float, str, bytes, tuple)):
            return bool(v)
        if isinstance(v, SBool):
            return self.mkbool(v.expr)
        if isinstance(v, (SInt, ZInt)):
            return self.mkbool(c_not(zero_cond(v)))
        if isinstance(v, SBytes):
            return len(v.el) > 0
        if isinstance(v, SStr):
            return True
        if isinstance(v, RangeVal):
            return len(v.r) > 0
        if isinstance(v, Ref):
            k = self.kind(v)
            if k in ('bytearray', 'list', 'dict', 'set'):
                return len(self.payload(v)) > 0
            if k == 'obj':
                cls = self.payload(v)[0]
                f, _ = self.class_lookup(cls, '__bool__') if isinstance(cls, ClassVal) else (None, None)
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}))
                f, _ = self.class_lookup(cls, '__len__') if isinstance(cls, ClassVal) else (None, None)
                if f is not None:
                    return self.truth(self.call(Bound(f, v), [], {}))
        return True

    def concrete_truth(self, v):
        c = self.truth(v)
        if isinstance(c, SBool):
            c = self.decide(c.expr)
        return c

    # ------------------------------------------------------------ operators
    def byte_items(self, v):
        """Elements of a bytes-like value, or None."""
        if isinstance(v, bytes):
            return tuple(v)
        if isinstance(v, SBytes):
            return v.el
        if isinstance(v, Ref) and self.kind(v) == 'bytearray':
            return self.payload(v)
        return None

    def mk_bytes(self, el):
        el = tuple(el)
        if all(isinstance(x, int) for x in el):
            return bytes(el)
        return SBytes(el)

    def binop(self, op, a, b):
        name = type(op).__name__
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return self.native_binop(name, a, b)
        num = (int, SInt, ZInt, SBool)
        if isinstance(a, num) and isinstance(b, num):
            return self.int_binop(name, a, b)
        if isinstance(a, str) and isinstance(b, str) and name == 'Add':
            return a + b
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)) and name == 'Add':
            return self.join_strs('', [a, b])
        if isinstance(a, str) and name == 'Mod':
            bb = b if isinstance(b, tuple) else (b,)
            if all(isinstance(x, (int, str, float, type(None))) for x in bb):
                try:
                    return a % b
                except TypeError as ex:
                    self.throw(TypeError, str(ex))
            return SStr(('fmt', a, tuple(self.canon(x) for x in bb)))
        if isinstance(a, str) and isinstance(b, int) and name == 'Mult':
            return a * b
        if isinstance(a, tuple) and isinstance(b, tuple) and name == 'Add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and name == 'Mult':
            return a * b
        ba, bb = self.byte_items(a), self.byte_items(b)
        if name == 'Add' and ba is not None and bb is not None:
            el = ba + bb
            if isinstance(a, Ref):
                return self.new_bytearray(el)
            return self.mk_bytes(el)
        if name == 'Mult':
            if ba is not None and isinstance(b, int):
                el = ba * b
                return self.new_bytearray(el) if isinstance(a, Ref) else self.mk_bytes(el)
            if bb is not None and isinstance(a, int):
                return self.binop(op, b, a)
            if isinstance(b, Ref) and isinstance(a, int):
                return self.binop(op, b, a)
        if isinstance(a, Ref) and self.kind(a) == 'list':
            if name == 'Add' and isinstance(b, Ref) and self.kind(b) == 'list':
                return self.new_list(self.payload(a) + self.payload(b))
            if name == 'Mult' and isinstance(b, int):
                return self.new_list(self.payload(a) * b)
        if isinstance(a, Ref) and self.kind(a) == 'dict' and isinstance(b, Ref) and self.kind(b) == 'dict' \
                and name == 'BitOr':
            d = dict(self.payload(a))
            d.update(self.payload(b))
            return self.new_dict(d)
        if isinstance(a, Ref) and self.kind(a) == 'set' and isinstance(b, Ref) and self.kind(b) == 'set':
            pa, pb = self.payload(a), self.payload(b)
            if name == 'BitOr':
                return self.alloc('set', pa + tuple(x for x in pb if x not in pa))
            if name == 'BitAnd':
                return self.alloc('set', tuple(x for x in pa if x in pb))
            if name == 'Sub':
                return self.alloc('set', tuple(x for x in pa if x not in pb))
        special = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'BitXor': '__xor__', 'BitAnd': '__and__',
                   'BitOr': '__or__', 'Mod': '__mod__', 'FloorDiv': '__floordiv__', 'LShift': '__lshift__',
                   'RShift': '__rshift__', 'Pow': '__pow__'}
        if isinstance(a, Ref) and self.kind(a) == 'obj' and isinstance(self.payload(a)[0], ClassVal):
            f, _ = self.class_lookup(self.payload(a)[0], special.get(name, '?'))
            if f is not None:
                return self.call(Bound(f, a), [b], {})
        if isinstance(b, Ref) and self.kind(b) == 'obj' and isinstance(self.payload(b)[0], ClassVal):
            f, _ = self.class_lookup(self.payload(b)[0], special.get(name, '?').replace('__', '__r', 1))
            if f is not None:
                return self.call(Bound(f, b), [a], {})
        if isinstance(a, (Opaque, StubModule)) or isinstance(b, (Opaque, StubModule)):
            return Opaque('expr')
        if isinstance(a, (type, ClassVal)) or isinstance(b, (type, ClassVal)):
            return Opaque('type expr')
        self.throw(TypeError, 'unsupported operand type(s) for %s: %s and %s' % (
            name, self.type_name(a), self.type_name(b)))

    def native_binop(self, name, a, b):
        try:
            if name == 'Add':
                return a + b
            if name == 'Sub':
                return a - b
            if name == 'Mult':
                return a * b
            if name == 'BitXor':
                return a ^ b
            if name == 'BitAnd':
                return a & b
            if name == 'BitOr':
                return a | b
            if name == 'LShift':
                return a << b
            if name == 'RShift':
                return a >> b
            if name == 'Mod':
                return a % b
            if name == 'FloorDiv':
                return a // b
            if name == 'Div':
                return a / b
            if name == 'Pow':
                if isinstance(b, int) and b > 100000:
                    self.unsupported('huge power')
                return a ** b
        except (ZeroDivisionError, ValueError, TypeError, OverflowError) as ex:
            self.throw(type(ex), str(ex))
        self.unsupported('operator ' + name)

    def int_binop(self, name, a, b):
        if isinstance(a, SBool):
            if name in ('BitAnd', 'BitOr', 'BitXor') and isinstance(b, (SBool, bool)):
                x = a.expr
                y = b.expr if isinstance(b, SBool) else (TRUE if b else FALSE)
                if name == 'BitAnd':
                    return self.mkbool(c_and([x, y]))
                if name == 'BitOr':
                    return self.mkbool(c_or([x, y]))
                return self.mkbool(c_bit(form_of_cond(x) ^ form_of_cond(y)))
            a = mk_int((form_of_cond(a.expr),))
        if isinstance(b, SBool):
            if name in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, bool):
                return self.int_binop(name, b, a)
            b = mk_int((form_of_cond(b.expr),))
        if isinstance(a, int) and isinstance(b, int):
            return self.native_binop(name, a, b)
        if name in ('BitXor', 'BitAnd', 'BitOr'):
            if isinstance(a, ZInt) or isinstance(b, ZInt):
                r = self._z_bitop(name, a, b)
                if r is not None:
                    return r
            x, y = bits_of(a), bits_of(b)
            if x is None or y is None:
                self.unsupported('bit operation on an unbounded integer')
            n = max(len(x), len(y))
            if name == 'BitAnd':
                n = min(len(x), len(y))
            x = tuple(x[:n]) + (0,) * (n - len(x))
            y = tuple(y[:n]) + (0,) * (n - len(y))
            if name == 'BitXor':
                return mk_int([f ^ g for f, g in zip(x, y)])
            if name == 'BitAnd':
                return mk_int([F.and_(f, g) for f, g in zip(x, y)])
            zs = None
            za = a.zset if isinstance(a, SInt) and a.zset is not None else frozenset(x)
            zb = b.zset if isinstance(b, SInt) and b.zset is not None else frozenset(y)
            return mk_int([F.or_(f, g) for f, g in zip(x, y)], None, za | zb)
        if name in ('LShift', 'RShift'):
            if not isinstance(b, int):
                self.unsupported('symbolic shift amount')
            if b < 0:
                self.throw(ValueError, 'negative shift count')
            if isinstance(a, ZInt):
                if name == 'LShift':
                    return from_poly(Z.mul(a.poly, Z.const(1 << b)))
                if Z.interval(a.poly)[0] is not None and Z.interval(a.poly)[1] is not None and \
                        Z.interval(a.poly)[0] >= 0 and b > 1:
                    return mk_int(bits_of(a)[b:])
                return from_poly(Z.floordiv(a.poly, Z.const(1 << b)))
            if name == 'LShift':
                pv = a.prov
                if pv is not None and pv[2] == 0:
                    pv = (((),) * b + tuple(pv[0]), pv[1] << b, 0)
                else:
                    pv = None
                return mk_int((0,) * b + tuple(a.bits), pv, a.zset)
            pv = a.prov
            if pv is not None:
                pv = (pv[0], pv[1], pv[2] + b)
            return mk_int(a.bits[b:], pv)
        if name == 'Add':
            if not isinstance(a, ZInt) and not isinstance(b, ZInt) and not (isinstance(a, int) and a < 0) and \
                    not (isinstance(b, int) and b < 0) and len(bits_of(a)) <= 1100 and len(bits_of(b)) <= 1100:
                ops, c = [], 0
                zs = frozenset()
                for v in (a, b):
                    if isinstance(v, int):
                        c += v
                    else:
                        ops.append((v.bits, v.prov))
                        zs |= v.zset if v.zset is not None else frozenset(v.bits)
                bits, prov = F.add(ops, c)
                return mk_int(bits, prov, zs if c == 0 else None)
            return from_poly(Z.add(to_poly(a), to_poly(b)))
        if name == 'Sub':
            if isinstance(b, int) and b == 0:
                return a
            r = Z.sub(to_poly(a), to_poly(b))
            return from_poly(r)
        if name == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, int) and isinstance(y, SInt):
                    if x == 0:
                        return 0
                    if x > 0 and x & (x - 1) == 0:
                        return self.int_binop('LShift', y, x.bit_length() - 1)
                    if len(y.bits) == 1 and x > 0:
                        return mk_int([y.bits[0] if (x >> i) & 1 else 0 for i in range(x.bit_length())])
                    if 0 < x < 65536 and len(y.bits) <= 16:
                        acc = 0
                        for i in range(x.bit_length()):
                            if (x >> i) & 1:
                                acc = self.int_binop('Add', acc, self.int_binop('LShift', y, i)) \
                                    if acc != 0 else self.int_binop('LShift', y, i)
                        return acc
            return from_poly(Z.mul(to_poly(a), to_poly(b)))
        if name in ('Mod', 'FloorDiv'):
            if isinstance(b, int) and b > 0 and b & (b - 1) == 0 and not isinstance(a, ZInt):
                k = b.bit_length() - 1
                if name == 'Mod':
                    return mk_int(a.bits[:k])
                return self.int_binop('RShift', a, k)
            if isinstance(b, int) and b > 0 and b & (b - 1) == 0 and isinstance(a, ZInt):
                lo, hi = Z.interval(a.poly)
                if lo is not None and lo >= 0 and hi is not None:
                    k = b.bit_length() - 1
                    bt = bits_of(a)
                    return mk_int(bt[:k] if name == 'Mod' else bt[k:])
                if name == 'Mod':
                    k = b.bit_length() - 1
                    return mk_int([zbit(a.poly, i) for i in range(k)])
            if isinstance(b, int) and b > 0 and isinstance(a, SInt) and (1 << len(a.bits)) <= b:
                return a if name == 'Mod' else 0
            try:
                if name == 'Mod':
                    return from_poly(Z.mod(to_poly(a), to_poly(b)))
                return from_poly(Z.floordiv(to_poly(a), to_poly(b)))
            except ZeroDivisionError:
                self.throw(ZeroDivisionError, 'integer modulo by zero')
        if name == 'Pow':
            if isinstance(b, int) and 0 <= b <= 300:
                if isinstance(a, SInt) and len(a.bits) == 1:
                    return a if b else 1
                return from_poly(Z.power(to_poly(a), b))
            self.unsupported('power')
        if name == 'Div':
            return Opaque('float')
        self.unsupported('operator ' + name)

    def _z_bitop(self, name, a, b):
        """& with a non-negative constant mask on an unbounded integer."""
        if name == 'BitAnd':
            z, m = (a, b) if isinstance(a, ZInt) else (b, a)
            if isinstance(m, int) and m >= 0:
                return mk_int([zbit(z.poly, i) if (m >> i) & 1 else 0 for i in range(m.bit_length())])
        return None

    def compare(self, op, a, b):
        name = type(op).__name__
        if name == 'Is' or name == 'IsNot':
            r = self.identical(a, b)
            return r if name == 'Is' else not r
        if name in ('In', 'NotIn'):
            r = self.contains(b, a)
            if name == 'NotIn':
                return self.mkbool(c_not(r.expr)) if isinstance(r, SBool) else not r
            return r
        if name in ('Eq', 'NotEq'):
            r = self.equal(a, b)
            if name == 'NotEq':
                return self.mkbool(c_not(r.expr)) if isinstance(r, SBool) else not r
            return r
        num = (int, SInt, ZInt, SBool)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[name]
        if isinstance(a, num) and isinstance(b, num):
            if name in ('Gt', 'LtE'):
                a, b = b, a
                neg_ = name == 'LtE'
            else:
                neg_ = name == 'GtE'
            # a < b
            if isinstance(a, SInt) and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
                e = allzero_cond(a.bits[b.bit_length() - 1:])
            elif isinstance(b, SInt) and isinstance(a, int) and a >= 0 and (a + 1) & a == 0:
                e = c_not(allzero_cond(b.bits[a.bit_length():]))
            else:
                e = lt0_cond(Z.sub(to_poly(a), to_poly(b)))
            return self.mkbool(c_not(e) if neg_ else e)
        if isinstance(a, str) and isinstance(b, str) or isinstance(a, tuple) and isinstance(b, tuple) or \
                isinstance(a, bytes) and isinstance(b, bytes):
            try:
                return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[name]
            except TypeError as ex:
                self.throw(TypeError, str(ex))
        ba, bb = self.byte_items(a), self.byte_items(b)
        if ba is not None and bb is not None:
            if all(isinstance(x, int) for x in ba + bb):
                return {'Lt': ba < bb, 'LtE': ba <= bb, 'Gt': ba > bb, 'GtE': ba >= bb}[name]
            return SBool(('opq', (name, self.canon(a), self.canon(b))))
        self.throw(TypeError, "'%s' not supported between instances of '%s' and '%s'" % (
            name, self.type_name(a), self.type_name(b)))

    def identical(self, a, b):
        if isinstance(a, Ref) or isinstance(b, Ref):
            return isinstance(a, Ref) and isinstance(b, Ref) and a.addr == b.addr
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            return a is b
        if isinstance(a, (int, str, bytes, tuple)) and type(a) is type(b):
            return a == b
        return a is b

    def contains(self, c, x):
        self.timed('in', c, x)
        if isinstance(c, str):
            if isinstance(x, str):
                return x in c
            if isinstance(x, SStr):
                return SBool(('opq', ('in', x.key, c)))
            self.throw(TypeError, "'in <string>' requires string as left operand")
        if isinstance(c, Ref) and self.kind(c) == 'dict':
            k = x
            if isinstance(k, (SInt, ZInt, SBytes)):
                self.unsupported('symbolic key')
            if isinstance(k, SStr):
                return False
            try:
                return k in self.payload(c)
            except TypeError:
                self.throw(TypeError, 'unhashable')
        if isinstance(c, RangeVal):
            if isinstance(x, int):
                return x in c.r
            if isinstance(x, (SInt, ZInt)) and c.r.step == 1:
                p = to_poly(x)
                return self.mkbool(c_and([c_not(lt0_cond(Z.sub(p, Z.const(c.r.start)))),
                                          lt0_cond(Z.sub(p, Z.const(c.r.stop)))]))
            return False
        if isinstance(c, Ref) and self.kind(c) == 'obj':
            f, _ = self.class_lookup(self.payload(c)[0], '__contains__')
            if f is not None:
                return self.truth(self.call(Bound(f, c), [x], {}))
        if isinstance(c, (int, float, SInt, ZInt, type(None))):
            self.throw(TypeError, 'argument is not iterable')
        es = []
        for y in self.iterate(c):
            r = self.equal(y, x)
            if r is True:
                return True
            if isinstance(r, SBool):
                es.append(r.expr)
        if not es:
            return False
        return self.mkbool(c_or(es))

    def timed(self, kind, a, b):
        """Record a comparison that stops at the first difference."""
        if self.timing is None:
            return
        for x in (a, b):
            if isinstance(x, (int, bool, type(None))) and not isinstance(x, ZInt) and kind != 'in':
                if isinstance(x, int) and x.bit_length() < 30:
                    return
            n = self.byte_items(x)
            if n is not None and len(n) < 2 and kind != 'in':
                return
            if isinstance(x, SInt) and len(x.bits) <= 30:
                return
        self.timing.append((kind, (self.canon(a), self.canon(b)), self.where()))

    def equal(self, a, b):
        self.timed('==', a, b)
        return self.equal_(a, b)

    def equal_(self, a, b):
        num = (int, SInt, ZInt, SBool)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, int) and isinstance(b, int):
                return a == b
            if isinstance(a, SBool) and isinstance(b, bool):
                return self.mkbool(a.expr if b else c_not(a.expr))
            if isinstance(b, SBool) and isinstance(a, bool):
                return self.mkbool(b.expr if a else c_not(b.expr))
            if not isinstance(a, ZInt) and not isinstance(b, ZInt):
                if isinstance(a, SInt) and b == 0 and not isinstance(b, SBool):
                    return self.mkbool(zero_cond(a))
                if isinstance(b, SInt) and isinstance(a, int) and a == 0:
                    return self.mkbool(zero_cond(b))
                x, y = bits_of(a), bits_of(b)
                if x is None or y is None:
                    return False
                n = max(len(x), len(y))
                x = tuple(x) + (0,) * (n - len(x))
                y = tuple(y) + (0,) * (n - len(y))
                return self.mkbool(allzero_cond(f ^ g for f, g in zip(x, y)))
            return self.mkbool(eq0_cond(Z.sub(to_poly(a), to_poly(b))))
        if isinstance(a, float) or isinstance(b, float):
            return isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b
        ba, bb = self.byte_items(a), self.byte_items(b)
        if ba is not None and bb is not None:
            if len(ba) != len(bb):
                return False
            fs = []
            for x, y in zip(ba, bb):
                if isinstance(x, int) and isinstance(y, int):
                    if x != y:
                        return False
                    continue
                x, y = bits_of(x), bits_of(y)
                n = max(len(x), len(y))
                x = tuple(x) + (0,) * (n - len(x))
                y = tuple(y) + (0,) * (n - len(y))
                fs.extend(f ^ g for f, g in zip(x, y))
            return self.mkbool(allzero_cond(fs))
        if ba is not None or bb is not None:
            return False
        if isinstance(a, SStr) or isinstance(b, SStr):
            if isinstance(a, SStr) and isinstance(b, SStr):
                if a.key == b.key:
                    return True
                return SBool(('opq', ('streq',) + tuple(sorted((a.key, b.key), key=repr))))
            s, o = (a, b) if isinstance(a, SStr) else (b, a)
            if s.key[0] == 'other':
                return False
            if not isinstance(o, str):
                return False
            return SBool(('opq', ('streq', s.key, o)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            es = []
            for x, y in zip(a, b):
                r = self.equal_(x, y)
                if r is False:
                    return False
                if isinstance(r, SBool):
                    es.append(r.expr)
            return self.mkbool(c_and(es)) if es else True
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.addr == b.addr:
                return True
            ka, kb = self.kind(a), self.kind(b)
            if ka == kb == 'list':
                return self.equal(self.payload(a), self.payload(b))
            if ka == kb == 'dict':
                pa, pb = self.payload(a), self.payload(b)
                if set(pa) != set(pb):
                    return False
                ks = list(pa)
                return self.equal(tuple(pa[k] for k in ks), tuple(pb[k] for k in ks))
            if ka == kb == 'set':
                return set(self.payload(a)) == set(self.payload(b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and self.kind(x) == 'obj' and isinstance(self.payload(x)[0], ClassVal):
                f, _ = self.class_lookup(self.payload(x)[0], '__eq__')
                if f is not None:
                    return self.truth(self.call(Bound(f, x), [y], {}))
        if isinstance(a, Ref) or isinstance(b, Ref):
            return False
        if isinstance(a, (ClassVal, Func, Builtin, Opaque)) or isinstance(b, (ClassVal, Func, Builtin, Opaque)):
            return a is b
        try:
            return bool(a == b)
        except Exception:
            return False

    # ------------------------------------------------------------ types
    def type_of(self, v):
        if v is None:
            return type(None)
        if isinstance(v, bool) or isinstance(v, SBool):
            return bool
        if isinstance(v, (int, SInt, ZInt)):
            return int
        if isinstance(v, (str, SStr)):
            return str
        if isinstance(v, (bytes, SBytes)):
            return bytes
        if isinstance(v, tuple):
            return tuple
        if isinstance(v, float):
            return float
        if isinstance(v, RangeVal):
            return range
        if isinstance(v, Ref):
            k = self.kind(v)
            if k == 'obj':
                return self.payload(v)[0]
            return {'bytearray': bytearray, 'list': list, 'dict': dict, 'set': set}[k]
        if isinstance(v, (ClassVal, type)):
            return type
        return object

    def type_name(self, v):
        return cls_name(self.type_of(v))

    def b_isinstance(self, v, t):
        ts = t if isinstance(t, tuple) else (t,)
        out = False
        for x in ts:
            if isinstance(x, tuple):
                if self.b_isinstance(v, x):
                    return True
                continue
            if isinstance(x, Opaque):
                r = self.abc_isinstance(v, x.name)
                if r:
                    return True
                continue
            if not isinstance(x, (type, ClassVal)):
                self.throw(TypeError, 'isinstance() arg 2 must be a type')
            if self.is_subclass(self.type_of(v), x):
                return True
        return out

    def abc_isinstance(self, v, name):
        t = self.type_of(v)
        if name in ('ByteString', 'Sequence'):
            return t in (bytes, bytearray) or (name == 'Sequence' and t in (list, tuple, str, range))
        if name in ('Mapping', 'MutableMapping'):
            return t is dict
        if name in ('Integral', 'Number'):
            return t in (int, bool) or (name == 'Number' and t is float)
        if name == 'Callable':
            return isinstance(v, (Func, Bound, Builtin, ClassVal, type))
        if name == 'Iterable':
            return t in (bytes, bytearray, list, tuple, str, dict, set, range)
        self.unsupported('isinstance of %s' % name)

    def b_issubclass(self, c, t):
        ts = t if isinstance(t, tuple) else (t,)
        return any(self.is_subclass(c, x) for x in ts)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=UNDEF):
        if isinstance(o, Ref):
            k = self.kind(o)
            if k == 'obj':
                cls, fl = self.payload(o)
                if isinstance(cls, ClassVal):
                    v, owner = self.class_lookup(cls, name)
                    if isinstance(v, PropVal):
                        return self.call(v.fget, [o], {})
                    if name in fl:
                        if self.track is not None and o.addr in self.track[1]:
                            self.track[0].add((o.addr, name))
                        return fl[name]
                    if v is not None or owner is not None:
                        return self.bind(v, o, cls)
                    if name == '__class__':
                        return cls
                    if name == '__dict__':
                        return self.new_dict(fl)
                    if name in ('__init__', '__del__', '__repr__', '__str__') and default is UNDEF:
                        if name == '__init__':
                            return Builtin('object.__init__', lambda *a, **k: None)
                        if name in ('__repr__', '__str__'):
                            return Builtin(name, lambda *a: SStr(('repr', id(o))))
                    ga, _ = self.class_lookup(cls, '__getattr__')
                    if ga is not None:
                        return self.call(Bound(ga, o), [name], {})
                    if name == '__traceback__' or name == 'with_traceback':
                        return None
                else:
                    if name in fl:
                        return fl[name]
                    if name == '__class__':
                        return cls
                    if name in ('with_traceback',):
                        return Builtin(name, lambda *a: o)
                if default is not UNDEF:
                    return default
                self.throw(AttributeError, "'%s' object has no attribute '%s'" % (cls_name(cls), name))
            if name == '__class__':
                return self.type_of(o)
            return self.builtin_method(o, k, name, default)
        if isinstance(o, ClassVal):
            if name == '__name__' or name == '__qualname__':
                return o.name
            if name == '__mro__':
                return tuple(self.mro(o))
            if name == '__dict__':
                return self.new_dict(o.ns)
            if name == '__module__':
                return o.module.name
            v, owner = self.class_lookup(o, name)
            if owner is not None:
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return Bound(v.f, o)
                return v
            if name == '__init__':
                return Builtin('object.__init__', lambda *a, **k: None)
            if name == '__new__':
                return Builtin('object.__new__', self.object_new)
            if default is not UNDEF:
                return default
            self.throw(AttributeError, "type object '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, SuperVal):
            return self.super_attr(o, name, default)
        if isinstance(o, ModuleVal):
            if name in o.ns:
                return o.ns[name]
            sub = o.name + '.' + name
            if sub in self.modules:
                return self.modules[sub]
            if default is not UNDEF:
                return default
            self.throw(AttributeError, 'module %s has no attribute %s' % (o.name, name))
        if isinstance(o, StubModule):
            return self.stub_attr(o, name)
        if isinstance(o, Func):
            if name in ('__name__',):
                return o.name
            if name == '__qualname__':
                return o.qual
            if name == '__doc__':
                return None
            if name == '__wrapped__':
                return o
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.func
            if name == '__name__':
                return o.func.name
        if isinstance(o, PropVal):
            if name == 'setter':
                return Builtin('setter', lambda f: PropVal(o.fget, f, o.fdel))
            if name == 'deleter':
                return Builtin('deleter', lambda f: PropVal(o.fget, o.fset, f))
            if name == 'getter':
                return Builtin('getter', lambda f: PropVal(f, o.fset, o.fdel))
            if name == 'fget':
                return o.fget
        if isinstance(o, Opaque):
            from . import builtins_ as bm
            if isinstance(o, bm.RandomSource):
                return bm.random_source(self, name, o.kind)
            return Opaque(o.name + '.' + name)
        if isinstance(o, Builtin):
            if name == 'from_iterable' and o.name == 'chain':
                return Builtin('chain.from_iterable', lambda it: IterVal(
                    [y for x in self.iterate(it) for y in self.iterate(x)]))
            if name == '__name__':
                return o.name
        if isinstance(o, type):
            if name == 'from_bytes' and o is int:
                return Builtin('int.from_bytes', self.int_from_bytes)
            if name == 'fromhex' and o in (bytes, bytearray):
                def fromhex(s):
                    if isinstance(s, SStr) and s.key[0] == 'hex':
                        el = s.key[1]
                        return self.new_bytearray(el) if o is bytearray else self.mk_bytes(el)
                    try:
                        r = bytes.fromhex(s)
                    except (ValueError, TypeError) as ex:
                        self.throw(type(ex), str(ex))
                    return self.new_bytearray(r) if o is bytearray else r
                return Builtin('fromhex', fromhex)
            if name == '__init__':
                return Builtin('object.__init__', lambda *a, **k: None)
            if name == '__new__':
                return Builtin('object.__new__', self.object_new)
            if name == '__name__':
                return o.__name__
            if name == 'fromkeys' and o is dict:
                return Builtin('fromkeys', lambda it, v=None: self.new_dict({k: v for k in self.iterate(it)}))
            if name == 'maketrans':
                return Builtin('maketrans', lambda x, y: ('translate', self.byte_items(x), self.byte_items(y)))
            # unbound method of a built-in type
            return Builtin(o.__name__ + '.' + name,
                           lambda recv, *a, **k: self.call(self.getattr(recv, name), list(a), k))
        if isinstance(o, IterVal):
            if name == '__next__':
                return Builtin('__next__', lambda: self.b_next(o))
            if name in ('close', 'send'):
                return Builtin(name, lambda *a: None)
        fields = getattr(o, 'FIELDS', None)
        if fields and name in fields:
            return o[fields.index(name)]
        k = self.vkind(o)
        if name == '__class__':
            return self.type_of(o)
        if k is not None:
            return self.builtin_method(o, k, name, default)
        if default is not UNDEF:
            return default
        if o is None or isinstance(o, (bool,)):
            self.throw(AttributeError, "'%s' object has no attribute '%s'" % (self.type_name(o), name))
        self.unsupported('attribute %s of %r' % (name, o))

    def vkind(self, o):
        if isinstance(o, (bytes, SBytes)):
            return 'bytes'
        if isinstance(o, (int, SInt, ZInt, SBool)):
            return 'int'
        if isinstance(o, (str, SStr)):
            return 'str'
        if isinstance(o, tuple):
            return 'tuple'
        if isinstance(o, float):
            return 'float'
        if isinstance(o, RangeVal):
            return 'range'
        return None

    def builtin_method(self, o, k, name, default=UNDEF):
        if k == 'int' and name in ('real', 'numerator'):
            return o
        if k == 'int' and name == 'imag':
            return 0
        from . import builtins_ as bm
        fn = bm.METHODS.get((k, name))
        if fn is None:
            if default is not UNDEF:
                return default
            tp = self.type_of(o)
            if hasattr(tp, name):
                self.unsupported('method %s.%s' % (k, name))
            self.throw(AttributeError, "'%s' object has no attribute '%s'" % (self.type_name(o), name))
        return Builtin('%s.%s' % (k, name), lambda *a, **kw: fn(self, o, *a, **kw))

    def bind(self, v, o, cls):
        if isinstance(v, Func):
            return Bound(v, o)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        if isinstance(v, Builtin) and v.name.startswith('cached:'):
            return Bound(v, o)
        return v

    def super_attr(self, sv, name, default):
        cls = sv.obj if isinstance(sv.obj, ClassVal) else self.payload(sv.obj)[0]
        m = self.mro(cls)
        i = m.index(sv.cls)
        for k in m[i + 1:]:
            if isinstance(k, ClassVal) and name in k.ns:
                v = k.ns[name]
                if isinstance(v, PropVal):
                    return self.call(v.fget, [sv.obj], {})
                return self.bind(v, sv.obj, cls)
            if not isinstance(k, ClassVal):
                if name == '__init__':
                    return Builtin('object.__init__', lambda *a, **kw: self.native_exc_init(sv.obj, a))
        if name == '__init__':
            return Builtin('object.__init__', lambda *a, **kw: None)
        if name == '__new__':
            return Builtin('object.__new__', self.object_new)
        if name == '__setattr__':
            return Builtin('object.__setattr__', lambda n, v: self.setattr_raw(sv.obj, n, v))
        if name in ('__init_subclass__',):
            return Builtin(name, lambda *a, **k: None)
        if default is not UNDEF:
            return default
        self.throw(AttributeError, "'super' object has no attribute '%s'" % name)

    def native_exc_init(self, o, a):
        cls, fl = self.payload(o)
        fl = dict(fl)
        fl['args'] = tuple(a)
        self.store(o, 'obj', (cls, fl))

    def object_new(self, cls, *a, **k):
        return self.alloc('obj', (cls, {}))

    def setattr(self, o, name, v):
        if isinstance(o, Ref) and self.kind(o) == 'obj':
            cls, fl = self.payload(o)
            if isinstance(cls, ClassVal):
                p, _ = self.class_lookup(cls, name)
                if isinstance(p, PropVal):
                    if p.fset is None:
                        self.throw(AttributeError, "can't set attribute '%s'" % name)
                    self.call(p.fset, [o, v], {})
                    return
                sa, _ = self.class_lookup(cls, '__setattr__')
                if sa is not None:
                    self.call(Bound(sa, o), [name, v], {})
                    return
            self.setattr_raw(o, name, v)
            return
        if isinstance(o, ClassVal):
            o.ns[name] = v
            if self.tag is None:
                self.writes.append((None, 'module:class ' + o.name, self.where(), self.trace()))
            return
        if isinstance(o, ModuleVal):
            o.ns[name] = v
            if self.tag is None:
                self.writes.append((None, 'module:' + o.name, self.where(), self.trace()))
            return
        if isinstance(o, Func):
            if self.tag is None:
                self.writes.append((None, 'module:function ' + o.qual, self.where(), self.trace()))
            return
        self.throw(AttributeError, "'%s' object has no attribute '%s'" % (self.type_name(o), name))

    def setattr_raw(self, o, name, v):
        cls, fl = self.payload(o)
        fl = dict(fl)
        fl[name] = v
        self.store(o, 'obj', (cls, fl))

    # ------------------------------------------------------------ items
    def norm_index(self, i, n):
        if isinstance(i, bool):
            i = int(i)
        if i < 0:
            i += n
        if i < 0 or i >= n:
            self.throw(IndexError, 'index out of range')
        return i

    def getitem(self, o, i):
        if isinstance(o, Ref):
            k = self.kind(o)
            p = self.payload(o)
            if k == 'dict':
                i = self.hashkey(i)
                if i in p:
                    return p[i]
                self.throw(KeyError, repr(i))
            if k in ('bytearray', 'list'):
                if isinstance(i, slice):
                    el = p[i]
                    return self.alloc(k, el)
                return self.seq_get(p, i)
            if k == 'obj':
                cls = p[0]
                f, _ = self.class_lookup(cls, '__getitem__') if isinstance(cls, ClassVal) else (None, None)
                if f is not None:
                    return self.call(Bound(f, o), [i], {})
            self.throw(TypeError, "'%s' object is not subscriptable" % self.type_name(o))
        if isinstance(o, tuple):
            if isinstance(i, slice):
                return o[i]
            return self.seq_get(o, i)
        if isinstance(o, bytes):
            if isinstance(i, slice):
                return o[i]
            return self.seq_get(tuple(o), i)
        if isinstance(o, SBytes):
            if isinstance(i, slice):
                return self.mk_bytes(o.el[i])
            return self.seq_get(o.el, i)
        if isinstance(o, str):
            if isinstance(i, slice):
                return o[i]
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError as ex:
                    self.throw(IndexError, str(ex))
        if isinstance(o, SStr):
            if o.key[0] == 'hex' and isinstance(i, slice) and i.step in (None, 1):
                n = 2 * len(o.key[1])
                s, e, _ = i.indices(n)
                if s % 2 == 0 and e % 2 == 0:
                    return SStr(('hex', o.key[1][s // 2:e // 2]))
            return SStr(('sub', o.key, repr(i)))
        if isinstance(o, RangeVal):
            if isinstance(i, slice):
                return RangeVal(o.r[i])
            try:
                return o.r[i]
            except IndexError as ex:
                self.throw(IndexError, str(ex))
        if isinstance(o, (Opaque, type, ClassVal, StubModule)):
            return Opaque('generic')
        self.throw(TypeError, "'%s' object is not subscriptable" % self.type_name(o))

    def seq_get(self, p, i):
        if isinstance(i, (SInt, ZInt, SBool)):
            return self.sym_lookup(p, i)
        if not isinstance(i, int):
            self.throw(TypeError, 'indices must be integers')
        return p[self.norm_index(i, len(p))]

    def sym_lookup(self, p, i):
        bits = bits_of(i)
        if bits is None:
            self.unsupported('unbounded index')
        n = len(p)
        if (1 << len(bits)) > n:
            # may be out of range
            if len(bits) > 12:
                self.unsupported('symbolic index that may be out of range')
        if len(bits) > 12:
            self.unsupported('wide symbolic index')
        w = self.table_width(p)
        if w is not None:
            try:
                return mk_int(F.lookup(p, bits, w))
            except IndexError:
                self.throw(IndexError, 'index may be out of range')
        if (1 << len(bits)) > n:
            self.unsupported('symbolic index that may be out of range')
        # mux over the elements
        items = list(p[:1 << len(bits)])
        mg = Merger(self, None, None, None, None)
        for b in bits:
            items = [mg.mux_bit(b, items[k + 1], items[k]) for k in range(0, len(items), 2)]
        return items[0]

    def table_width(self, p):
        t = self._tables.get(id(p))
        if t is None or t[0] is not p:
            w = None
            if all(isinstance(x, int) and not isinstance(x, bool) and x >= 0 for x in p):
                w = max(x.bit_length() for x in p)
            t = self._tables[id(p)] = (p, w)
        return t[1]

    def to_byte(self, v):
        """Value stored into one byte; range checked."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            if not 0 <= v <= 255:
                self.throw(ValueError, 'byte must be in range(0, 256)')
            return v
        if isinstance(v, SBool):
            return mk_int((form_of_cond(v.expr),))
        if isinstance(v, SInt):
            if len(v.bits) > 8:
                # the value may exceed 255
                e = allzero_cond(v.bits[8:])
                c = self.known(e)
                if c is None:
                    c = self.decide(e)
                if not c:
                    self.throw(ValueError, 'byte must be in range(0, 256)')
                return mk_int(v.bits[:8])
            return v
        if isinstance(v, ZInt):
            lo, hi = Z.interval(v.poly)
            if lo is not None and lo >= 0 and hi is not None and hi <= 255:
                return mk_int(bits_of(v))
            self.unsupported('unbounded integer stored into a byte')
        self.throw(TypeError, "'%s' object cannot be interpreted as an integer" % self.type_name(v))

    def setitem(self, o, i, v):
        if isinstance(o, Ref):
            k = self.kind(o)
            if k == 'dict':
                d = dict(self.payload(o))
                d[self.hashkey(i)] = v
                self.store(o, 'dict', d)
                return
            if k in ('bytearray', 'list'):
                l = list(self.payload(o))
                if isinstance(i, slice):
                    if k == 'bytearray':
                        items = self.byte_items(v)
                        if items is None:
                            if isinstance(v, int):
                                self.throw(TypeError, 'can assign only bytes')
                            items = [self.to_byte(x) for x in self.iterate(v)]
                    else:
                        items = self.iterate(v)
                    try:
                        l[i] = list(items)
                    except ValueError as ex:
                        self.throw(ValueError, str(ex))
                else:
                    if not isinstance(i, int):
                        self.unsupported('symbolic store index')
                    j = self.norm_index(i, len(l))
                    l[j] = self.to_byte(v) if k == 'bytearray' else v
                self.store(o, k, tuple(l))
                return
            if k == 'obj':
                cls = self.payload(o)[0]
                f, _ = self.class_lookup(cls, '__setitem__') if isinstance(cls, ClassVal) else (None, None)
                if f is not None:
                    self.call(Bound(f, o), [i, v], {})
                    return
        self.throw(TypeError, "'%s' object does not support item assignment" % self.type_name(o))

    # ------------------------------------------------------------ iteration
    def iterate(self, v, prefix=False):
        if getattr(v, 'endless', None) is not None and not prefix:
            self.unsupported('all values of an endless generator')
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, (bytes, str)):
            return list(v)
        if isinstance(v, SBytes):
            return list(v.el)
        if isinstance(v, RangeVal):
            if len(v.r) > 2000000:
                self.unsupported('range too long')
            return list(v.r)
        if isinstance(v, IterVal):
            out = v.items[v.pos:]
            v.pos = len(v.items)
            return out
        if isinstance(v, Ref):
            k = self.kind(v)
            if k in ('bytearray', 'list', 'set'):
                return list(self.payload(v))
            if k == 'dict':
                return list(self.payload(v).keys())
            if k == 'obj':
                cls = self.payload(v)[0]
                if isinstance(cls, ClassVal):
                    f, _ = self.class_lookup(cls, '__iter__')
                    if f is not None:
                        r = self.call(Bound(f, v), [], {})
                        if isinstance(r, Ref) and r.addr == v.addr:
                            out = []
                            nx, _ = self.class_lookup(cls, '__next__')
                            while True:
                                try:
                                    out.append(self.call(Bound(nx, v), [], {}))
                                except TargetExc as exc:
                                    if self.is_subclass(exc.cls, StopIteration):
                                        return out
                                    raise
                                if len(out) > 100000:
                                    self.unsupported('endless iterator')
                        return self.iterate(r)
        if isinstance(v, SymSeq):
            self.unsupported('iteration over a sequence of unknown length')
        if isinstance(v, (int, float, SInt, ZInt, type(None), bool)):
            self.throw(TypeError, "'%s' object is not iterable" % self.type_name(v))
        if isinstance(v, SStr):
            self.unsupported('iteration over an unknown string')
        self.unsupported('iteration over %r' % (v,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw):
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            g = f.func
            if isinstance(g, Func):
                return self.call_func(g, [f.self] + args, kw)
            return self.call(g, [f.self] + args, kw)
        if isinstance(f, Builtin):
            try:
                return f.fn(*args, **kw)
            except TypeError as ex:
                if ex.__traceback__.tb_next is None:
                    self.throw(TypeError, str(ex))
                raise
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, type):
            from . import builtins_ as bm
            return bm.construct(self, f, args, kw)
        if isinstance(f, StaticM):
            return self.call(f.f, args, kw)
        if isinstance(f, Ref) and self.kind(f) == 'obj':
            return self.call(self.getattr(f, '__call__'), args, kw)
        if isinstance(f, Opaque):
            if f.name in ('abstractmethod', 'typing.decorator', 'final', 'override', 'overload', 'wraps_inner'):
                return args[0]
            if f.name in ('TypeVar', 'NewType', 'namedtuple'):
                return Opaque(f.name)
            if f.name == 'cast':
                return args[1]
            self.unsupported('call of %s' % f.name)
        self.throw(TypeError, "'%s' object is not callable" % self.type_name(f))

    def instantiate(self, cls, args, kw):
        if self.is_subclass(cls, BaseException):
            o = self.alloc('obj', (cls, {'args': tuple(args)}))
            f, _ = self.class_lookup(cls, '__init__')
            if f is not None:
                self.call(Bound(f, o), args, kw)
            return o
        nw, _ = self.class_lookup(cls, '__new__')
        if nw is not None:
            g = nw.f if isinstance(nw, StaticM) else nw
            o = self.call(g, [cls] + args, kw)
            if not (isinstance(o, Ref) and self.kind(o) == 'obj'):
                return o
        else:
            o = self.alloc('obj', (cls, {}))
        self.last_object = o
        f, _ = self.class_lookup(cls, '__init__')
        if f is not None:
            # abstract classes cannot be instantiated
            self.call(self.bind(f, o, cls), args, kw)
        elif args or kw:
            self.throw(TypeError, '%s() takes no arguments' % cls.name)
        return o

    def call_func(self, f, args, kw):
        node = f.node
        a = node.args
        env = {}
        params = list(a.posonlyargs) + list(a.args) if hasattr(a, 'posonlyargs') else list(a.args)
        names = [p.arg for p in params]
        n = len(names)
        kw = dict(kw)
        if len(args) > n:
            if a.vararg is None:
                self.throw(TypeError, '%s() takes %d positional arguments but %d were given' % (f.name, n, len(args)))
            env[a.vararg.arg] = tuple(args[n:])
            args = args[:n]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for nm, v in zip(names, args):
            env[nm] = v
        for nm in names[len(args):]:
            if nm in kw:
                env[nm] = kw.pop(nm)
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                env[p.arg] = f.kwdefaults[p.arg]
            else:
                self.throw(TypeError, '%s() missing keyword argument %s' % (f.name, p.arg))
        nd = len(f.defaults)
        for j, nm in enumerate(names):
            if nm not in env:
                di = j - (n - nd)
                if di >= 0:
                    env[nm] = f.defaults[di]
                else:
                    self.throw(TypeError, "%s() missing required argument: '%s'" % (f.name, nm))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(kw)
        elif kw:
            self.throw(TypeError, "%s() got an unexpected keyword argument '%s'" % (f.name, sorted(kw)[0]))
        self.stats['calls'] += 1
        self.stats['functions'].add(f.module.name + '.' + f.qual)
        if len(self.stack) > 980:
            self.throw(RecursionError, 'maximum recursion depth exceeded')
        if self.group is not None:
            r = self.group.call(f, env)
            if r is UNDEF:
                r = self.group.multiple(f, env)
            if r is not UNDEF:
                return r
            return self.group.body(f, env)
        # recursion over unknown values
        if self.rec_guard(f, env):
            return self.rec_summary(f, args, env)
        if self.summ is not None:
            done, r = self.summ.try_call(f, args, env)
            if done:
                return r
        return self.run_body(f, env)

    def run_body(self, f, env):
        node = f.node
        fr = Frame(env, f, f.module, f.closure)
        if f.is_gen:
            return self.run_gen(f, fr, env)
        fr.line = node.lineno
        self.stack.append(fr)
        depth = len(self.stack)
        if isinstance(node, ast.Lambda):
            try:
                return self.eval(node.body, fr)
            finally:
                if self.stack and self.stack[-1] is fr:
                    self.stack.pop()
        r = self.exec_block(node.body, fr)
        del self.stack[depth - 1:]
        if r is not None and r[0] == 'ret':
            return r[1]
        return None

    def run_gen(self, f, fr, env):
        fr.yields = []
        fr.line = f.node.lineno
        depth = len(self.stack)
        snap = self.snapshot()
        facts = (dict(self.facts), list(self.factlist))
        self.stack.append(fr)
        self.in_gen += 1
        endless = None
        try:
            self.exec_block(f.node.body, fr)
        except Hang as e:
            if not fr.yields:
                raise
            endless = e
        except GenSymbolic:
            self.restore(snap)
            self.facts, self.factlist = facts
            polys = []
            for k, v in env.items():
                p = to_poly(v)
                if p is not None:
                    polys.append(p)
            self.gen_notes(f, env)
            return SymSeq(tuple(polys), f)
        finally:
            self.in_gen -= 1
            del self.stack[depth:]
        r = IterVal(fr.yields)
        r.endless = endless
        return r

    def gen_notes(self, f, env):
        """A generator whose length depends on an unknown integer: record the
        argument so that the termination check can look at its sign."""
        self.loop_notes.append(('gen', f, {k: to_poly(v) for k, v in env.items() if to_poly(v) is not None},
                                self.trace(), dict(self.facts), list(self.factlist)))

    # -------------------------------------------------- recursion summaries
    def rec_guard(self, f, env):
        n = sum(1 for fr in self.stack if fr.func is not None and fr.func.node is f.node)
        if n == 0:
            return False
        symbolic = any(isinstance(v, (ZInt, SInt)) for v in env.values())
        return symbolic and n >= 1

    def rec_summary(self, f, args, env):
        """Recursion on unknown integers.  Supported: functions (a, b) returning
        (g, x, y) with a*x + b*y = g (checked inductively by bezout_ok)."""
        raise RecursionOnUnknown(f, env)

    # ------------------------------------------------------------ canonical
    def canon(self, v, seen=None):
        """Hashable canonical content of a value."""
        if isinstance(v, Ref):
            if seen is None:
                seen = {}
            if v.addr in seen:
                return ('seen', seen[v.addr])
            k, p = self.heap[v.addr]
            if k == 'bytearray':
                return ('bytearray', tuple(self.canon(x) for x in p))
            seen[v.addr] = len(seen)
            if k == 'list':
                return ('list', tuple(self.canon(x, seen) for x in p))
            if k == 'dict':
                return ('dict', tuple((kk if not isinstance(kk, Ref) else 'ref', self.canon(x, seen)) for kk, x in p.items()))
            if k == 'set':
                return ('set', tuple(sorted(map(repr, p))))
            cls, fl = p
            return ('obj', cls_name(cls), tuple((kk, self.canon(x, seen)) for kk, x in sorted(fl.items())))
        if isinstance(v, bytes):
            return ('bytes', tuple(v))
        if isinstance(v, SBytes):
            return ('bytes', tuple(self.canon(x) for x in v.el))
        if isinstance(v, SInt):
            return ('i', v.bits)
        if isinstance(v, bool) or v is None or isinstance(v, (int, str, float)):
            return v
        if isinstance(v, ZInt):
            return ('z', v.poly)
        if isinstance(v, SBool):
            return ('b', v.expr)
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.canon(x, seen) for x in v)
        if isinstance(v, SStr):
            return ('s', v.key)
        if isinstance(v, RangeVal):
            return ('range', v.r.start, v.r.stop, v.r.step)
        if isinstance(v, (Func, ClassVal, Builtin, ModuleVal)):
            return ('code', getattr(v, 'name', '?'))
        if isinstance(v, IterVal):
            return ('iter', tuple(self.canon(x, seen) for x in v.items[v.pos:]))
        if isinstance(v, SymSeq):
            return ('symseq', v.key)
        return ('other', repr(v))

    def reachable(self, v, seen=None):
        """Addresses reachable from v."""
        if seen is None:
            seen = {}
        stack = [(v, ())]
        while stack:
            x, path = stack.pop()
            if isinstance(x, Ref):
                if x.addr in seen:
                    continue
                seen[x.addr] = path
                k, p = self.heap[x.addr]
                if k in ('list', 'set'):
                    stack.extend((y, path + ('[%d]' % i,)) for i, y in enumerate(p))
                elif k == 'dict':
                    stack.extend((y, path + ('[%r]' % (kk,),)) for kk, y in p.items())
                elif k == 'obj':
                    stack.extend((y, path + ('.' + kk,)) for kk, y in p[1].items())
            elif isinstance(x, tuple):
                stack.extend((y, path + ('[%d]' % i,)) for i, y in enumerate(x))
            elif isinstance(x, Bound):
                stack.append((x.self, path + ('.__self__',)))
            elif isinstance(x, IterVal):
                stack.extend((y, path) for y in x.items)
        return seen

    # ------------------------------------------------------------ deepcopy
    def deepcopy(self, v, memo=None):
        if memo is None:
            memo = {}
        if isinstance(v, Ref):
            if v.addr in memo:
                return memo[v.addr]
            k, p = self.heap[v.addr]
            if k == 'bytearray':
                r = self.alloc(k, p)
                memo[v.addr] = r
                return r
            if k == 'obj' and isinstance(p[0], ClassVal):
                f, _ = self.class_lookup(p[0], '__deepcopy__')
                if f is not None:
                    return self.call(Bound(f, v), [self.new_dict({})], {})
                st, _ = self.class_lookup(p[0], '__getstate__')
                rd, _ = self.class_lookup(p[0], '__reduce__')
                if st is not None or rd is not None:
                    self.unsupported('copy protocol')
            r = self.alloc(k, p)
            memo[v.addr] = r
            if k in ('list', 'set'):
                np = tuple(self.deepcopy(x, memo) for x in p)
            elif k == 'dict':
                np = {kk: self.deepcopy(x, memo) for kk, x in p.items()}
            else:
                np = (p[0], {kk: self.deepcopy(x, memo) for kk, x in p[1].items()})
            self.heap[r.addr] = (k, np)
            return r
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x, memo) for x in v)
        if isinstance(v, Bound):
            return Bound(v.func, self.deepcopy(v.self, memo))
        return v

    def shallow(self, v):
        if isinstance(v, Ref):
            k, p = self.heap[v.addr]
            if k == 'obj' and isinstance(p[0], ClassVal):
                f, _ = self.class_lookup(p[0], '__copy__')
                if f is not None:
                    return self.call(Bound(f, v), [], {})
                return self.alloc(k, (p[0], dict(p[1])))
            return self.alloc(k, dict(p) if k == 'dict' else p)
        return v

    # ------------------------------------------------------------ strings
    def join_strs(self, sep, parts):
        parts = [p if isinstance(p, SStr) else str(p) for p in parts]
        if all(isinstance(p, str) for p in parts):
            return sep.join(parts)
        # concatenation of hexadecimal texts
        if sep == '':
            el = []
            ok = True
            for p in parts:
                if isinstance(p, SStr) and p.key[0] == 'hex':
                    el.extend(p.key[1])
                elif isinstance(p, str) and len(p) % 2 == 0 and all(c in '0123456789abcdef' for c in p):
                    el.extend(bytes.fromhex(p))
                elif isinstance(p, SStr) and p.key[0] == 'fmt' and p.key[2] == '02x' and \
                        isinstance(p.key[1], tuple) and p.key[1][0] == 'i':
                    el.append(SInt(p.key[1][1]))
                else:
                    ok = False
            if ok:
                return self.hexstr(el)
        return SStr(('join', sep, tuple(p if isinstance(p, str) else p.key for p in parts)))

    def hexstr(self, el):
        el = tuple(el)
        if all(isinstance(x, int) for x in el):
            return bytes(el).hex()
        return SStr(('hex', HexEl(el)))

    # ------------------------------------------------------------ misc builtins
    def int_from_bytes(self, b, byteorder='big', signed=False):
        items = self.byte_items(b)
        if items is None:
            items = tuple(self.to_byte(x) for x in self.iterate(b))
        if byteorder not in ('big', 'little'):
            self.throw(ValueError, "byteorder must be either 'little' or 'big'")
        if signed:
            self.unsupported('signed from_bytes')
        if all(isinstance(x, int) for x in items):
            return int.from_bytes(bytes(items), byteorder)
        if byteorder == 'big':
            items = items[::-1]
        bits = []
        for x in items:
            bb = tuple(bits_of(x))
            bits.extend(bb + (0,) * (8 - len(bb)))
        return mk_int(bits)

    def stub_attr(self, m, name):
        from . import builtins_ as bm
        return bm.stub(self, m.name, name)

    def b_next(self, it, default=UNDEF):
        if isinstance(it, IterVal):
            if it.pos < len(it.items):
                it.pos += 1
                return it.items[it.pos - 1]
            if default is not UNDEF:
                return default
            self.throw(StopIteration, '')
        if isinstance(it, Ref) and self.kind(it) == 'obj':
            return self.call(self.getattr(it, '__next__'), [], {})
        self.unsupported('next()')


class HexEl(tuple):
    """Bytes behind a hexadecimal string (hash by canonical content)."""

    def __eq__(self, other):
        return isinstance(other, HexEl) and self.key() == other.key()

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.key())

    def key(self):
        return tuple(x if isinstance(x, int) else x.bits for x in self)

    def __getitem__(self, i):
        r = tuple.__getitem__(self, i)
        return HexEl(r) if isinstance(i, slice) else r


class RecursionOnUnknown(Exception):
    def __init__(self, f, env):
        self.f, self.env = f, env
        super().__init__('recursion on unknown values in %s' % f.qual)


def _has_yield(body):
    for s in body:
        stack = [s]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
    return False


class Merger:
    """Join of two states under a condition, with gated (mux) values."""

    def __init__(self, interp, cond, base, sa, sb):
        self.it = interp
        self.cond = cond
        self.base = base
        self.sa, self.sb = sa, sb
        self.form = form_of_cond(cond) if cond is not None else None
        self.refs = {}
        self.updates = {}

    def result(self, ra, rb):
        if ra is None and rb is None:
            return None
        if isinstance(ra, tuple) and isinstance(rb, tuple) and ra[0] == rb[0] == 'ret':
            return ('ret', self.mux(ra[1], rb[1]))
        if ra == rb and isinstance(ra, str):
            return ra
        raise MergeFail()

    def mux_bit(self, f, a, b):
        old = self.form
        self.form = f
        self.cond = c_bit(f)
        try:
            return self.mux(a, b)
        finally:
            self.form = old

    def mux(self, a, b):
        if a is b:
            return a
        it = self.it
        if isinstance(a, Ref) and isinstance(b, Ref) and a.addr == b.addr:
            return a
        if isinstance(a, bool) and isinstance(b, bool) or isinstance(a, SBool) and isinstance(b, (bool, SBool)) or \
                isinstance(b, SBool) and isinstance(a, bool):
            if isinstance(a, bool) and isinstance(b, bool) and a == b:
                return a
            x = a.expr if isinstance(a, SBool) else (TRUE if a else FALSE)
            y = b.expr if isinstance(b, SBool) else (TRUE if b else FALSE)
            if x == y:
                return a
            c = self.cond
            e = c_and([c_or([c_not(c), x]), c_or([c, y])])
            return it.mkbool(e)
        num = (int, SInt, ZInt, SBool)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            if isinstance(a, SInt) and isinstance(b, SInt) and a.bits == b.bits:
                return a
            if not isinstance(a, ZInt) and not isinstance(b, ZInt):
                x, y = bits_of(a), bits_of(b)
                if x is not None and y is not None:
                    n = max(len(x), len(y))
                    x = tuple(x) + (0,) * (n - len(x))
                    y = tuple(y) + (0,) * (n - len(y))
                    return mk_int([F.mux(self.form, p, q) for p, q in zip(x, y)])
            p, q = to_poly(a), to_poly(b)
            if p == q:
                return a
            la, ha = Z.interval(p)
            lb, hb = Z.interval(q)
            lo = None if la is None or lb is None else min(la, lb)
            hi = None if ha is None or hb is None else max(ha, hb)
            return ZInt(Z.zatom(('zmux', self.cond, p, q), lo, hi))
        if isinstance(a, (str, type(None), float)) and isinstance(b, (str, type(None), float)) and a == b:
            return a
        ha = self._bytes_in(a, self.sa)
        hb = self._bytes_in(b, self.sb)
        if ha is not None and hb is not None and ha[0] == hb[0] and len(ha[1]) == len(hb[1]):
            el = tuple(self.mux(x, y) for x, y in zip(ha[1], hb[1]))
            if ha[0] == 'bytes':
                return it.mk_bytes(el)
            if self.base is None:
                raise MergeFail()
            ba = self.base[0]
            if a.addr in ba or b.addr in ba:
                # one side is an older object: its identity is lost, which nothing can
                # notice when the variable joined here is all that refers to it
                if a.addr in ba and b.addr in ba or not self.alone(a, self.sa) or not self.alone(b, self.sb):
                    raise MergeFail()
            k = (a.addr, b.addr)
            if k not in self.refs:
                r = Ref(it.next_addr)
                it.next_addr += 1
                self.refs[k] = r
                self.updates[r.addr] = ('bytearray', el)
            return self.refs[k]
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mux(x, y) for x, y in zip(a, b))
        if isinstance(a, Ref) and isinstance(b, Ref) and self.base is not None:
            ka, pa = self.sa[0][a.addr]
            kb, pb = self.sb[0][b.addr]
            if a.addr not in self.base[0] and b.addr not in self.base[0] and ka == kb:
                k = (a.addr, b.addr)
                if k in self.refs:
                    return self.refs[k]
                r = Ref(it.next_addr)
                it.next_addr += 1
                self.refs[k] = r
                self.updates[r.addr] = (ka, self.mux_payload(ka, pa, pb))
                return r
        if isinstance(a, (Func,)) and isinstance(b, Func) and a.node is b.node:
            return a
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func:
            return Bound(a.func, self.mux(a.self, b.self))
        if isinstance(a, SStr) and isinstance(b, SStr):
            if a.key == b.key:
                return a
        if isinstance(a, RangeVal) and isinstance(b, RangeVal) and a.r == b.r:
            return a
        if isinstance(a, slice) and a == b:
            return a
        if isinstance(a, IterVal) and isinstance(b, IterVal) and len(a.items) == len(b.items) and a.pos == b.pos:
            r = IterVal([self.mux(x, y) for x, y in zip(a.items, b.items)])
            r.pos = a.pos
            return r
        raise MergeFail()

    def _bytes_in(self, v, state):
        if isinstance(v, bytes):
            return ('bytes', tuple(v))
        if isinstance(v, SBytes):
            return ('bytes', v.el)
        if isinstance(v, Ref) and state is not None:
            k, p = state[0][v.addr]
            if k == 'bytearray':
                return ('bytearray', p)
        return None

    def alone(self, ref, state):
        """One local variable, and nothing else, refers to the object in the state."""
        if ref.addr in self.it.owner:        # the caller's or a module's
            return False
        n = 0

        def count(v, d):
            if isinstance(v, Ref):
                return v.addr == ref.addr
            if isinstance(v, (tuple, list)):
                if v and isinstance(v[0], int) and isinstance(v[-1], int):
                    return 0
                return sum([count(x, d + 1) for x in v])
            if isinstance(v, dict):
                return sum([count(x, d + 1) for x in v.values()])
            if isinstance(v, Bound):
                return count(v.self, d + 1)
            if isinstance(v, IterVal):
                return count(v.items, d + 1)
            if v is None or isinstance(v, (int, str, bytes, float, SInt, ZInt, SBool, SBytes, SStr, Builtin, Func, ClassVal,
                                           ModuleVal, StubModule, RangeVal)):
                return 0
            return 2            # not looked into
        for _, env in state[1]:
            n += sum([count(v, 0) for v in env.values()])
            if n > 1:
                return False
        if n != 1:
            return False
        for k, p in state[0].values():
            if k == 'bytearray':
                continue
            if k == 'obj':
                p = p[1]
            if k == 'dict' and any(isinstance(x, (Ref, tuple)) and count(x, 0) for x in p):
                return False
            if count(p, 0):
                return False
        return True

    def mux_payload(self, k, pa, pb):
        if pa is pb:
            return pa
        if k in ('bytearray', 'list'):
            if len(pa) != len(pb):
                raise MergeFail()
            return tuple(self.mux(x, y) for x, y in zip(pa, pb))
        if k == 'dict':
            if list(pa) != list(pb):
                raise MergeFail()
            return {kk: self.mux(pa[kk], pb[kk]) for kk in pa}
        if k == 'set':
            if pa != pb:
                raise MergeFail()
            return pa
        if pa[0] is not pb[0] or set(pa[1]) != set(pb[1]):
            raise MergeFail()
        return (pa[0], {kk: self.mux(pa[1][kk], pb[1][kk]) for kk in pa[1]})

    def apply(self):
        it = self.it
        ha, hb, h0 = self.sa[0], self.sb[0], self.base[0]
        heap = dict(ha)
        for a, v in hb.items():
            if a not in heap:
                heap[a] = v
        for a in h0:
            va, vb = ha.get(a), hb.get(a)
            if va is vb or va == vb and va[0] != 'obj':
                continue
            if va is None or vb is None or va[0] != vb[0]:
                raise MergeFail()
            heap[a] = (va[0], self.mux_payload(va[0], va[1], vb[1]))
        envs = []
        fa = {id(f): env for f, env in self.sa[1]}
        for f, envb in self.sb[1]:
            enva = fa.get(id(f))
            if enva is None:
                raise MergeFail()
            env = {}
            for n in set(enva) | set(envb):
                if n in enva and n in envb:
                    try:
                        env[n] = self.mux(enva[n], envb[n])
                    except MergeFail:
                        # a variable that is rebound to values of different
                        # shape: keep it undefined if it was not live before
                        raise
                # defined in one arm only: dropped
            envs.append((f, env))
        # a variable defined only in one arm is kept if base had none and it is
        # a plain temporary: leave it undefined
        for (m, nsa), (m2, nsb) in zip(self.sa[3], self.sb[3]):
            if nsa != nsb:
                if any(nsa.get(k) is not nsb.get(k) for k in set(nsa) | set(nsb)):
                    raise MergeFail()
        if self.sa[2] != self.sb[2]:
            it.rand_count = max(self.sa[2], self.sb[2])
        rc = list(self.sa[4])
        for x in self.sb[4]:
            if x not in rc:
                rc.append(x)
        it.heap = heap
        it.heap.update(self.updates)
        it.stack = [f for f, _ in envs]
        for f, env in envs:
            f.env = env
        it.rand_calls = rc

"""Runs the obligations of one property and writes its evidence.

    python3 -m gsa C10            (VERIF_TIER=quick|thorough)

Every obligation is analysed in its own forked process over its own universe of
atoms.  A difference found with function summaries is analysed again without
them before it is reported.
"""
import importlib
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

ROOT = os.environ.get('GSA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROCS = int(os.environ.get('GSA_PROCS', '8'))
TOTAL = {'quick': 780, 'thorough': 3300}
GRACE = 30
CONSTANTS = 45
MEM = 6 << 30
FORCE = os.environ.get('GSA_CONSTANTS')     # development: constants for every obligation


PATTERNS = ('random', 'zeros first', 'zeros last', 'mostly ones', 'not zero', 'mostly zeros', 'random', 'not zero')


def shapes(fn, ctx, it, start, t0):
    """Constant propagation with inputs of several shapes."""
    from . import builtins_, evalform
    it.shaping = True
    for n, p in enumerate(PATTERNS):
        if ctx.found or n and time.time() - t0 > (4 if FORCE else 20):
            return
        builtins_.BIND[0] = evalform.Binding((7000 + n, p, {}))
        it.restore(start)
        it.facts, it.factlist = {}, []
        fn(ctx)


def _child(fn, name, precise, it, tier, wfd, limit, bind=None):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    from . import core
    from .interp import Unsupported, RecursionOnUnknown, TargetExc, MergeFail, Abandon, GenSymbolic
    ctx = core.Ctx(it, precise, tier)
    if bind is not None:
        from . import builtins_, evalform
        if bind[0] != 'shapes':
            builtins_.BIND[0] = evalform.Binding(bind)
        start = it.snapshot()
    out = {'status': 'ok', 'found': [], 'notes': [], 'items': 0}
    t0 = time.time()
    if precise:
        from . import search
        search.TOTAL[0] = 150.0
    try:
        if bind is not None and bind[0] == 'shapes':
            shapes(fn, ctx, it, start, t0)
        else:
            fn(ctx)
        n = 0
        while bind is not None and bind[0] != 'shapes' and not ctx.found and time.time() - t0 < CONSTANTS:
            # other constants: the difference may depend on a value computed from the inputs
            n += 1
            builtins_.BIND[0] = evalform.Binding((100000 * (bind[3] + 1) + n, 'random', {}))
            it.restore(start)
            it.facts, it.factlist = {}, []
            fn(ctx)
    except core.Violation as v:
        try:
            ctx.fail(v.msg, v.where, v.soft)
        except core.Enough:
            pass
    except core.Enough:
        pass
    except core.Missing as m:
        out['status'] = 'missing'
        out['why'] = str(m)
    except TargetExc as e:
        out['status'] = 'undecided'
        out['why'] = 'uncaught %s at %s' % (e, e.site)
        out['exc'] = True
    except (Unsupported, RecursionOnUnknown, MergeFail, Abandon, GenSymbolic) as e:
        out['status'] = 'undecided'
        out['why'] = '%s: %s' % (type(e).__name__, e)
    except MemoryError:
        out['status'] = 'undecided'
        out['why'] = 'memory limit'
    except RecursionError:
        out['status'] = 'undecided'
        out['why'] = 'recursion limit of the analyser'
    except Exception as e:
        out['status'] = 'error'
        out['why'] = ''.join(traceback.format_exception(e)[-4:])
    if ctx.found:
        out['status'] = 'found'
    out['found'] = ctx.found
    out['notes'] = ctx.notes
    out['assign'] = ctx.assign
    out['items'] = ctx.items
    out['sample'] = ctx.sample[:4]
    out['summaries'] = bool(it.summ is not None and it.summ.used)
    out['functions'] = sorted(it.stats['functions'])
    out['calls'] = it.stats['calls']
    out['joins'] = it.stats['joins']
    out['partitions'] = it.stats['partitions']
    out['wall'] = round(time.time() - t0, 2)
    data = pickle.dumps(out)
    os.write(wfd, len(data).to_bytes(8, 'big'))
    i = 0
    while i < len(data):
        i += os.write(wfd, data[i:i + 65536])
    os.close(wfd)
    os._exit(0)


class Job:
    __slots__ = ('idx', 'name', 'fn', 'precise', 'limit', 'pid', 'fd', 'buf', 't0', 'bind', 'rest')

    def __init__(self, idx, name, fn, precise, limit, bind=None, rest=()):
        self.bind, self.rest = bind, rest
        self.idx, self.name, self.fn, self.precise, self.limit = idx, name, fn, precise, limit


def run_jobs(jobs, it, tier, deadline, on_done):
    """jobs: list of Job; on_done(job, out) may return more jobs."""
    pending = list(jobs)
    live = {}
    while pending or live:
        while pending and len(live) < PROCS:
            j = pending.pop(0)
            if time.time() > deadline[0]:
                on_done(j, {'status': 'undecided', 'why': 'not analysed: time limit of the run, or a violation was reported before', 'found': [], 'notes': [], 'items': 0})
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for o in live.values():
                        try:
                            os.close(o.fd)
                        except OSError:
                            pass
                    _child(j.fn, j.name, j.precise, it, tier, w, j.limit, j.bind)
                finally:
                    os._exit(3)
            os.close(w)
            j.pid, j.fd, j.buf, j.t0 = pid, r, b'', time.time()
            live[r] = j
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 0.5)
        now = time.time()
        for fd in list(live):
            j = live[fd]
            done = None
            if fd in rd:
                d = os.read(fd, 1 << 16)
                if d:
                    j.buf += d
                else:
                    if len(j.buf) > 8:
                        try:
                            done = pickle.loads(j.buf[8:])
                        except Exception:
                            done = None
                    if done is None:
                        done = {'status': 'undecided', 'why': 'analysis process ended', 'found': [], 'notes': [],
                                'items': 0}
            if done is None and (now - j.t0 > j.limit or now > deadline[0]):
                os.kill(j.pid, signal.SIGKILL)
                done = {'status': 'undecided', 'why': 'time limit', 'found': [], 'notes': [], 'items': 0}
            if done is not None:
                os.close(fd)
                os.waitpid(j.pid, 0)
                del live[fd]
                more = on_done(j, done)
                if more:
                    pending[:0] = more


def known_findings():
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                # <id> | <key> | <text>
                p = [x.strip() for x in l.split('|', 2)]
                if len(p) == 3:
                    out.append(tuple(p))
    return out


def main(argv):
    t0 = time.time()
    cid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    verbose = '-v' in argv
    only = [a for a in argv[1:] if not a.startswith('-')]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    from .interp import Interp, Unsupported, TargetExc
    from . import builtins_, core
    from .summ import Summaries
    mod = importlib.import_module('gsa.checks.' + cid.lower())
    try:
        it = Interp(ROOT)
        it.load('gostcrypto')
        it.summ = Summaries(it)
        ctx = core.Ctx(it, False, tier)
        warm = getattr(mod, 'WARM', ())
        from . import common
        common.warm(ctx, warm)
        obs = list(mod.obligations(ctx))
    except (Unsupported, TargetExc, SyntaxError, core.Missing) as e:
        print('analysis broken: %s' % e)
        return 2
    if only:
        obs = [o for o in obs if any(x in o[0] for x in only)]
    deadline = [t0 + TOTAL[tier]]
    limit = getattr(mod, 'TIME_LIMIT', 300 if tier == 'quick' else 1500)
    results = {}
    confirmed, dropped = [], []
    functions = set()
    totals = {'items': 0, 'calls': 0, 'joins': 0, 'partitions': 0}

    known = [k for k in known_findings() if k[0] == cid]

    def confirmed_new(i):
        return any(not any(k[1] in '%s: %s @ %s' % (obs[i][0], m, w) for k in known) for m, w, _ in results[i]['found'])

    def on_done(j, out):
        more = record(j, out)
        if not more and confirmed_new(j.idx) and tier == 'quick':
            # a confirmed violation decides the run; the rest gets a moment to add more places
            deadline[0] = min(deadline[0], time.time() + GRACE)
        return more

    def record(j, out):
        functions.update(out.get('functions', ()))
        for k in ('calls', 'joins', 'partitions'):
            totals[k] += out.get(k, 0)
        if verbose:
            print('  %-60s %s %s %ss %s' % (j.name, 'assignment' if j.bind is not None else 'precise' if j.precise else '', out['status'], out.get('wall', ''),
                                            out.get('why', '')))
            for m in out.get('notes', ()):
                print('      note:', m)
            for f in out['found']:
                print('      found:', f)
        if j.bind is not None and j.bind[0] == 'shapes':
            prev = results[j.idx]
            if out['status'] == 'found':
                results[j.idx] = dict(prev, status='found', found=prev['found'] + out['found'])
            return None
        if j.bind is not None:
            prev = results[j.idx]
            if out['status'] == 'found' and not all(f in prev['found'] for f in out['found'] if not f[2]) or \
                    out['status'] == 'found' and any(f[2] for f in out['found']):
                # the difference shows on the assignment, without any summary
                results[j.idx] = dict(prev, found=[f for f in prev['found'] if not f[2]] + out['found'])
                return None
            if j.rest:
                return [Job(j.idx, j.name, j.fn, True, j.limit, j.rest[0], j.rest[1:])]
            return [Job(j.idx, j.name, j.fn, True, 420 if tier == 'quick' else 1500)]
        if j.precise:
            prev = results[j.idx]
            hard = [f for f in prev['found'] if not f[2]]
            if out['status'] == 'found':
                results[j.idx] = dict(out, found=hard + [f for f in out['found'] if f not in hard])
            elif out['status'] == 'ok':
                results[j.idx] = dict(out, found=hard, status='found' if hard else 'ok', refined=True)
            elif hard:
                results[j.idx] = dict(prev, found=hard)
            else:
                results[j.idx] = {'status': 'undecided', 'found': [], 'notes': out.get('notes', []),
                                  'items': prev['items'],
                                  'why': 'difference under summaries not confirmed: %s' % out.get('why')}
            return None
        results[j.idx] = out
        if out['status'] == 'undecided' and not out.get('why', '').startswith('not analysed') or FORCE and j.idx % int(FORCE) == 0:
            # the symbolic analysis does not cover a construct: constant propagation
            return [Job(j.idx, j.name, j.fn, True, 120, ('shapes',))]
        if out['status'] == 'found' and out.get('summaries') and any(f[2] for f in out['found']):
            a = out.get('assign') or [(0, 'random', {})]
            a = [tuple(x) + (j.idx,) for x in a]
            return [Job(j.idx, j.name, j.fn, True, 180, a[0], a[1:])]
        return None

    jobs = [Job(i, n, f, False, limit) for i, (n, f) in enumerate(obs)]
    run_jobs(jobs, it, tier, deadline, on_done)

    viol, kn = [], []
    undecided, notes, ok, missing, errors, full = [], [], 0, [], [], 0
    for i, (n, f) in enumerate(obs):
        r = results[i]
        totals['items'] += r.get('items', 0)
        st = r['status']
        if st == 'ok':
            ok += 1
            full += not r.get('notes')
        elif st == 'found':
            for msg, where, soft in r['found']:
                hit = [k for k in known if k[1] in ('%s: %s @ %s' % (n, msg, where))]
                (kn if hit else viol).append((n, msg, where, hit[0][2] if hit else ''))
        elif st == 'missing':
            missing.append((n, r.get('why')))
        elif st == 'error':
            errors.append((n, r.get('why')))
        else:
            undecided.append((n, r.get('why')))
        for m in r.get('notes', ()):
            notes.append('%s: %s' % (n, m))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    doc = (mod.__doc__ or '').strip()
    samples = []
    for i, (n, f) in enumerate(obs):
        for s in results[i].get('sample', ())[:1]:
            samples.append('%s: %s' % (n, s))
    ev = {
        'property': cid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': doc,
            'obligations': len(obs), 'discharged': full,
            'discharged_in_part': ok - full,
            'undecided': ['%s: %s' % u for u in undecided][:60],
            'not_decided_parts': notes[:60],
            'values_compared': totals['items'],
            'abstract_calls': totals['calls'], 'joins': totals['joins'], 'partitions': totals['partitions'],
            'functions_analysed': sorted(functions),
            'functions_analysed_count': len(functions),
            'obligation_names': [n for n, _ in obs][:400],
            'samples': samples[:8] or [n for n, _ in obs][:5],
            'exhaustive': False,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    with open(os.path.join(VERIF, 'evidence', cid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1, default=str)
    seen = set()
    for n, msg, where, text in kn:
        if text not in seen:
            seen.add(text)
            print('KNOWN-FINDING: property=%s %s' % (cid, text))
    if undecided or errors:
        print('%d of %d obligations not decided' % (len(undecided) + len(errors), len(obs)))
        for u in (undecided + errors)[:10]:
            print('  undecided %s: %s' % u)
    if viol:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        path = os.path.join(VERIF, 'replay', cid + '.txt')
        with open(path, 'w') as fh:
            for n, msg, where, _ in viol:
                fh.write('obligation: %s\n  at %s\n  %s\n' % (n, where, msg))
            fh.write('\nrepeat with: python3 -m gsa %s\n' % cid)
        for n, msg, where, _ in viol[:6]:
            print('%s\n   at %s\n   %s' % (n, where, msg))
        print('VIOLATION property=%s replay=%s' % (cid, path))
        return 1
    if missing:
        for n, w in missing:
            print('analysis broken: %s: %s' % (n, w))
        return 2
    if ok == 0 and obs:
        print('analysis broken: no obligation could be decided')
        return 2
    if errors:
        # an error of the analyser in a part of the obligations
        for n, w in errors[:3]:
            print('analyser error in %s: %s' % (n, w))
    print('%s: %d of %d obligations hold (%d values compared, %d functions, %.1f s)' % (
        cid, ok, len(obs), totals['items'], len(functions), time.time() - t0))
    return 0

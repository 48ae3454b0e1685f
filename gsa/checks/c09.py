"""Each argument of each public function is partitioned by type, name and length:
bytes, bytearray, and objects that are neither (None, numbers, text, lists,
tuples); every unsupported name, mode, padding; every length around and between
the documented ones; documented numeric ranges at and beyond their ends.  For
each class the analysed call either returns on every path (documented as valid)
or ends in the documented error class with the documented message on every
path, for arbitrary contents."""
from .arguments import *

WARM = ('magma', 'kuznechik', 'hash')
ASSUMPTIONS = ['lengths are enumerated around the documented ones, contents are arbitrary',
               'other types than None, numbers, text, lists and tuples are not passed']


def classify(ctx, f):
    """None if it returns, else (class, message, site)."""
    try:
        f()
    except TargetExc as e:
        cl, msg = ctx.error_of(e)
        return cl, ctx.text(msg), e.site
    return None


def judge(ctx, text, f, want):
    for kind, r, st in ctx.paths(lambda: classify(ctx, f)):
        ctx.items += 1
        if kind != 'ok':
            ctx.note('%s: %s' % (text, kind))
            continue
        if r is not None and want is None and 'seed value is zero' in r[1] and st[1]:
            continue        # the unknown seed may be zero
        if (r is None) == (want is None) and (r is None or r[:2] == want):
            continue
        if not ctx.feasible(st[1]):
            ctx.note('not decided: %s' % text)
        elif want is None:
            ctx.fail('%s is documented as valid but raises %s (%s)' % (text, r[0], r[1]), r[2])
        elif r is None:
            ctx.fail('%s is accepted, documented: %s' % (text, want[1]))
        else:
            ctx.fail('%s raises %s (%s), documented: %s' % (text, r[0], r[1], want[1]), r[2])


def one(fam, args, kind, part):
    def run(ctx):
        it = ctx.it
        b = ba(ctx) if kind == 'bytearray' else bb(ctx)

        table = args(ctx, b, ctx.tier != 'quick')[part]
        for group, what, f, want in table:
            forget(ctx, lambda: judge(ctx, '%s: %s' % (group, what), f, want))
        ctx.sample.append('; '.join(x[1] for x in table[:4]))
    return run


def obligations(ctx):
    out = []
    b = ba(ctx)
    for fam, args in families(ctx):
        n = len(args(ctx, b, ctx.tier != 'quick'))
        step = 40
        for kind in ('bytearray', 'bytes'):
            if kind == 'bytes' and fam == 'oid':
                continue
            for i in range(0, n, step):
                out.append(('%s, calls %d to %d, %s' % (fam, i + 1, min(n, i + step), kind), one(fam, args, kind, slice(i, i + step))))
    return out

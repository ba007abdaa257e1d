"""C01: memory safety of all queries (ownership, lifetime and bounds analysis over the gated heap)."""
import families, sweep
from interp import fmtloc

KINDS = {'null-deref': 'no null dereference', 'use-after-free': 'no access to released storage',
         'double-free': 'storage is released at most once', 'bad-free': 'only owned storage is released',
         'out-of-bounds': 'accesses stay inside their object', 'uninit': 'no access through, or decision on, an uninitialised value',
         'dangling': 'no access to dead locals', 'wild': 'no access through an invalid pointer'}
R_LEAK = 'every allocation is released before the query returns'
R_SOME = 'a planning query returns at least one segment (the sampling functions look at the first one)'


def visit(q, what, drv, first):
    I, B = q.I, q.B
    v = []
    for r in I.reports:
        v.append((KINDS.get(r['kind'], r['kind']), sweep.where(r), '%s; query on %s' % (r['detail'], what), r['path']))
    for o, l in I.leaks(first, q.endpc):
        v.append((R_LEAK, '%s (%s)' % (fmtloc(o.site), I.prog.short(o.site[2]).split('(')[0]),
                  'storage allocated here is not released on some path; query on ' + what, o.stack))
    if drv == 'ctl_':
        some = 0
        for c in q.ctrls:
            some = B.OR(some, c[0])
        if not families.false(B.AND(q.endpc, B.NOT(some))):
            v.append((R_SOME, 'planner ' + what, 'on some path no segment is emitted', []))
    c = I.counts
    nheap = len(I.heap) - first
    return {'viol': v, 'counts': {'obligations': c['derefs'] + c['frees'] + nheap + (drv == 'ctl_'), 'memory accesses checked': c['derefs'],
                                  'releases checked': c['frees'], 'allocations tracked': nheap,
                                  'instructions transferred': c['instr'], 'calls inlined': c['calls']}}


def run(ctx):
    sweep.run(ctx, visit)
    for k in list(KINDS.values()) + [R_LEAK, R_SOME]:
        ctx.rule(k)
    ctx.assumption('allocation succeeds; exceptions are not modelled')
    ctx.assumption('sampling loops of unknown length are followed for a fixed number of rounds (their bodies treat every round alike)')
    ctx.need('releases checked', 20000)
    ctx.need('allocations tracked', 10000)
    return ('Ownership, lifetime and bounds analysis over the gated abstract heap: every load, store, allocation and release on every path of every '
            'public query of all planners (each candidate path in its own partition), of the turn, circle, Fresnel and filter routines and of the sampling functions.')

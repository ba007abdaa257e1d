"""All public queries of all planners, transferred completely; used by the heap, initialisation and history properties."""
import os
import families, g1, lib, paths, wrappers
from lib import short
from query import Q

AUX = ['turn_rs', 'turn_hc', 'turn_cc', 'straight', 'empty', 'reverse', 'circle_start', 'circle_center', 'param', 'util', 'fresnel',
       'minindex', 'state_equal', 'ekf_jacobi', 'ekf_predict', 'ekf_update', 'ekf_models']
SAMPLE = [k + '_' + s for k in ('int', 'itp', 'cov') for s in ('hc', 'rs', 'dubins_f')]
WCLS = [('pos', 'neg'), ('zero', 'zero'), ('max', 'min'), ('zero', 'pos'), ('pos', 'pos', 0), ('neg', 'neg', 3), ('zero', 'zero', 0)]
STALE = False


def where(r):
    return '%s:%d (%s)' % (short(r['file']), r['line'], r['fn'].split('(')[0])


def fresh(I):
    I.reports = []
    I.rep_keys = set()
    return len(I.heap)


def modelled(I, what):
    if I.unmodelled:
        raise lib.Broken('%s calls %s' % (what, sorted(I.unmodelled)))


def t_family(prog, fam, drv, visit, stale):
    def f():
        def prep(q):
            if stale:
                cells, ptrs = q.stale_cells()
                q = families.pass1(prog, fam, drv, stale=cells)
                q.ptrs = ptrs
                return q

        def grp(q, ids, pc):
            modelled(q.I, fam)
            r = visit(q, fam, drv, q.I.heap0)
            r['counts']['candidate partitions'] = len(ids)
            return r
        return families.merge(families.per_group(prog, fam, grp, drv, nproc=3, prep=prep))
    return f


def t_plain(prog, fam, drv, visit, stale, opts=None):
    def f():
        q = Q(prog, partition=False, turns=False, opts=opts)
        if stale:
            q.run(drv + fam)
            cells, ptrs = q.stale_cells()
            q = Q(prog, partition=False, turns=False, opts=opts)
            q.stale, q.ptrs = cells, ptrs
        h = fresh(q.I)
        q.run(drv + fam)
        modelled(q.I, fam)
        r = visit(q, fam, drv, h)
        if opts and q.I.cuts:
            r['counts']['loops of unknown length followed for %d rounds' % opts['unroll']] = len(q.I.cuts)
        return r
    return f


def t_wrapper(prog, fam, c1, c2, eqk, visit, stale):
    def f():
        out = []
        for drv in ('ctl_', 'dst_'):
            q = wrappers.W(prog, fam, c1, c2, eqk=eqk)
            q.discover(drv + fam)
            if stale:
                cells, ptrs = q.stale_cells()
                q = wrappers.W(prog, fam, c1, c2, eqk=eqk)
                q.stale, q.ptrs = cells, ptrs
                q.discover(drv + fam)
            q.ctrls, q.doubles = [], {}
            ids = sorted(q.exist)
            pc = q.scenarios(ids) if ids else 1
            h = fresh(q.I)
            q.run(drv + fam, pc)
            modelled(q.I, fam)
            out.append(visit(q, fam, drv, h))
        return families.merge(out)
    return f


def run(ctx, visit, stale=False, aux=True, unroll=2):
    prog = ctx.prog
    tasks = []
    if ctx.tier == 'thorough':
        unroll += 1
    for f in families.HCCC:
        tasks += [(f + ' ' + d, t_family(prog, f, d, visit, stale)) for d in ('ctl_', 'dst_')]
    for f in families.G1:
        tasks += [(f + ' ' + d, t_plain(prog, f, d, visit, stale)) for d in ('ctl_', 'dst_')]
    if aux:
        for d in AUX:
            tasks.append((d, t_plain(prog, d, 'drv_', visit, False)))
    for d in SAMPLE:
        tasks.append((d, t_plain(prog, d, 'drv_', visit, stale, {'unroll': unroll})))
    for f in wrappers.WRAP:
        for c in WCLS:
            tasks.append(('%s %s %s' % ((f,) + c[:2]), t_wrapper(prog, f, c[0], c[1], c[2] if len(c) > 2 else None, visit, stale)))
    if os.environ.get('VERIF_ONLY'):
        tasks = [t for t in tasks if os.environ['VERIF_ONLY'] in t[0]]
    lib.fan(tasks, ctx.merge_std, 6)
    ctx.count('queries analysed', len(tasks))
    if not os.environ.get('VERIF_ONLY'):
        ctx.need('candidate partitions', 800)
        ctx.need('queries analysed', 60)

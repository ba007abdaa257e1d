"""C13: sampling and interpolation return states of the path."""
import random
import basics, families, lib, sampling, surveys
from num import Eval, NumErr
from paths import HOOKS, FRESNEL
from query import Q

R_INT = 'the samples are the states of the exact path at every multiple of the discretization and at the end of every segment, beginning with the start'
R_ITP = 'the interpolated state is the state of the exact path at the given fraction of its length, the start for t <= 0 and the end for t >= 1'
R_COV = 'sampling with covariance visits the same states as sampling without'
R_ASK = 'a path query plans from the given start to the given goal with the planner it is asked of'
R_PATH = 'a path query samples the planned path from the given start'
FAMS = families.HCCC + ['rs', 'dubins_f', 'dubins_b', 'hc_rs', 'cc_dubins_f', 'cc_dubins_b']
SRC = {'hc': 'HC_CC_State_Space', 'rs': 'Reeds_Shepp_State_Space', 'dubins_f': 'Dubins_State_Space'}


def modelled(q, what):
    if q.I.unmodelled:
        raise lib.Broken('%s: not modelled: %s' % (what, sorted(q.I.unmodelled)[:3]))


def sample(prog, drv, name, rule, n, unroll, steps, count, seed, fn):
    def f():
        q = Q(prog, stubs=FRESNEL, partition=False, turns=False, opts={'unroll': unroll})
        q.steps = steps
        q.run('drv_%s_%s' % (drv, name))
        modelled(q, drv + name)
        cnt, bad = getattr(sampling, fn)(q, random.Random(seed), n, name == 'hc', count)
        cnt['sampling queries'] = 1
        wh = '%s::%s' % (SRC[name], {'int': 'integrate', 'itp': 'interpolate', 'cov': 'integrate_with_covariance'}[drv])
        return {'counts': cnt, 'viol': [(rule, wh, '%s (%d of %d points)' % (m, len(bad), cnt['points of the value graph']), sampling.where(e)) for m, e in bad[:2]]}
    return f


def combined(prog, kind, fam, n, seed, count):
    def f():
        cov = kind == 'pcov_'
        unroll, steps = (n + 1, n + 1) if cov else (4, 3)
        q = sampling.Sampled(prog, n, unroll)
        q.steps = steps
        q.run(kind + fam)
        modelled(q, kind + fam)
        wh = '%s_State_Space::%s' % (sampling.klass(fam), 'get_path_with_covariance' if cov else 'get_path')
        r = random.Random(seed)
        bad = []
        asked = 0
        for j in range(count):
            e = sampling.problem(r, n, steps, 'rs' != fam and not fam.startswith('dubins'), 'plain')
            for k in ('x2', 'y2', 'th2', 'k2', 'd2'):
                e[k] = complex(r.uniform(-3, 3))
            ev = Eval(q.B, e, None, HOOKS)
            got = [(c, [ev.val(v) for v in vals]) for c, vals, pc in q.asked if ev.cond(pc)]
            asked += len(got)
            want = [e[k] for k in ('x', 'y', 'th', 'k', 'x2', 'y2', 'th2', 'k2')]
            if len(got) != 1 or got[0][0] != sampling.klass(fam) or max(abs(a - b) for a, b in zip(got[0][1], want)) > 1e-9:
                bad.append((R_ASK, 'planner queried: %s' % '; '.join('%s with %s' % (c, ', '.join('%.4g' % z.real for z in v)) for c, v in got), e))
                continue
            m = sampling.compare(sampling.states(q, ev), sampling.exact(e))
            if m:
                bad.append((R_PATH, m, e))
        return {'counts': {'points of the value graph': count, 'obligations': 2 * count, 'path queries': 1, 'planning calls examined': asked},
                'viol': [(ru, wh, m, sampling.where(e)) for ru, m, e in bad[:2]]}
    return f


def run(ctx):
    prog = ctx.prog
    k = 1 if ctx.tier == 'quick' else 5
    U = 9 if ctx.tier == 'quick' else 11
    s = surveys.seed()
    tasks = []
    for name in ('hc', 'rs', 'dubins_f'):
        tasks.append(('int ' + name, sample(prog, 'int', name, R_INT, 3, U, U - 3, 120 * k, s, 'check_int')))
    for name in ('hc', 'rs', 'dubins_f'):
        tasks.append(('cov ' + name, sample(prog, 'cov', name, R_COV, 2, 3, 3, 60 * k, s, 'check_int')))
    for name in ('hc', 'rs', 'dubins_f'):
        tasks.append(('itp ' + name, sample(prog, 'itp', name, R_ITP, 3, 6, 8, 80 * k, s, 'check_itp')))
    for fam in FAMS:
        tasks += [(kind + fam, combined(prog, kind, fam, n, s, 12 * k)) for kind in ('path_', 'pcov_') for n in (1, 2)]
    ctx.fan(tasks + [surveys.t_fresnel(prog)])
    for x in (R_INT, R_ITP, R_COV, R_ASK, R_PATH, basics.R_FRES):
        ctx.rule(x)
    ctx.assumption('real arithmetic; loops are followed for %d rounds (every segment of at most that many samples)' % U)
    ctx.need('sampling queries', 9)
    ctx.need('path queries', 4 * len(FAMS))
    return ('Each sampling query is turned into one gated value graph (LLVM IR, all paths within the unrolling, symbolic start, controls and '
            'discretization); the returned states are interpreted at points that include whole multiples of the discretization, zero-length segments, '
            'curvature jumps and segment ends, and compared with the exact path. Path queries are analysed with planning as an opaque call.')

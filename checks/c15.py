"""C15: covariances along a sampled path."""
import random
import c13, ekf, sampling, surveys
from num import Eval
from paths import HOOKS

RULE = 'the first covariances are the given ones; every further sample carries the filtered covariances of the sample before it, advanced over the distance between the two'


def combined(prog, fam, seed, count):
    def f():
        q = sampling.Sampled(prog, 1, 2)
        q.run('pcov_' + fam)
        c13.modelled(q, 'pcov_' + fam)
        r = random.Random(seed)
        cnt = {'obligations': 0, 'points of the value graph': count, 'path queries': 1}
        viol = []
        for _ in range(count):
            e = sampling.problem(r, 1, 2, 'rs' != fam and not fam.startswith('dubins'), 'plain')
            for k in ('x2', 'y2', 'th2', 'k2', 'd2'):
                e[k] = complex(r.uniform(-3, 3))
            ekf.noise(r, e)
            S, L = ekf.covariances(r, e)
            m = sampling.cov_error(q, e, Eval(q.B, e, None, HOOKS), S, L, cnt)
            if m:
                viol.append((RULE, '%s_State_Space::get_path_with_covariance' % sampling.klass(fam), m, sampling.where(e)))
                break
        return {'counts': cnt, 'viol': viol}
    return f


def run(ctx):
    prog = ctx.prog
    k = 1 if ctx.tier == 'quick' else 5
    U = 3 if ctx.tier == 'quick' else 4
    tasks = [('cov ' + n, c13.sample(prog, 'cov', n, RULE, 2, U, U, 60 * k, surveys.seed(), 'check_cov')) for n in ('hc', 'rs', 'dubins_f')]
    ctx.fan(tasks + [(f, combined(prog, f, surveys.seed(), 15 * k)) for f in c13.FAMS] + [surveys.t_fresnel(prog)])
    ctx.rule(RULE)
    ctx.assumption('real arithmetic; Fresnel integrals exact; loops are followed for %d rounds' % U)
    ctx.need('sampling queries', 3)
    ctx.need('path queries', len(c13.FAMS))
    ctx.need('obligations', 500)
    return ('The sampling query with covariances is turned into one gated value graph (LLVM IR including the matrix library, symbolic start state, '
            'covariances, controls, discretization and filter parameters); every returned covariance is compared, by random interpretation, with the '
            'recursion of the textbook filter along the exact path.')

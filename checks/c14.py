"""C14: one step of the filter."""
import random
import ekf, lib, sampling, surveys
from num import Eval, NumErr
from paths import FRESNEL, HOOKS
from query import Q

R_PRED = 'prediction propagates both covariances with the derivatives of the motion model, the configured noise and the configured controller'
R_UPD = 'the measurement update is that of the extended Kalman filter for a direct pose measurement with the configured noise'
R_SUM = 'the total covariance is the sum of the covariances of estimation and of control'


def block(q, ev, p):
    d = q.doubles
    return [[ev.val(d['%s%d' % (p, 4 * a + b)][-1][1]) for b in range(3)] for a in range(3)]


def point(r):
    e = {k: complex(r.uniform(-3, 3)) for k in ('x', 'y', 'th')}
    e['d'] = complex(r.choice([-1, 1]))
    e['k'] = complex(r.choice([0, 0, 1, -1, 0.3]) * r.uniform(0.5, 1))
    e['cs'] = complex(r.choice([0, 0, 1, -1]) * r.uniform(0.3, 2))
    e['ck'] = e['k'] if e['cs'] == 0 else complex(r.uniform(-1, 1))
    e['ds'] = complex(r.choice([-1, 1]) * r.uniform(0.2, 3))
    e['step'] = complex(r.uniform(0.05, 1.0))
    ekf.noise(r, e)
    S, L = ekf.covariances(r, e)
    return e, S, L


def task(prog, drv, n, seed):
    def f():
        q = Q(prog, stubs=FRESNEL, partition=False, turns=False)
        q.run('drv_' + drv)
        if q.I.unmodelled:
            raise lib.Broken('%s: not modelled: %s' % (drv, sorted(q.I.unmodelled)[:3]))
        r = random.Random(seed)
        viol = []
        for _ in range(n):
            e, S, L = point(r)
            ev = Eval(q.B, e, None, HOOKS)
            if drv == 'ekf_predict':
                want = ekf.predict(e, S, L, e['th'].real, e['k'].real, e['cs'].real, 1 if e['ds'].real > 0 else -1, e['step'].real)
                rule, wh = R_PRED, 'EKF::predict'
            else:
                want = ekf.update(e, S, L)
                rule, wh = R_UPD, 'EKF::update'
            try:
                got = [block(q, ev, p) for p in 'SLC']
            except (NumErr, OverflowError, ZeroDivisionError) as x:
                viol.append((rule, wh, 'no value: %s' % x, None))
                break
            for nm, a, b, ru in zip(('Sigma', 'Lambda', 'covariance'), got, (want[0], want[1], ekf.add(got[0], got[1])), (rule, rule, R_SUM)):
                if not ekf.close(a, b):
                    viol.append((ru, wh, '%s is %s, expected %s' % (nm, ekf.show(a), ekf.show(b)), {k: v.real for k, v in e.items() if k[0] not in 'SLC'}))
            if viol:
                break
        return {'counts': {'points of the value graph': n, 'obligations': 3 * n, 'filter queries': 1}, 'viol': viol}
    return f


def run(ctx):
    n = 150 if ctx.tier == 'quick' else 2000
    ctx.fan([(d, task(ctx.prog, d, n, surveys.seed())) for d in ('ekf_predict', 'ekf_update')] + [surveys.t_fresnel(ctx.prog)])
    for x in (R_PRED, R_UPD, R_SUM):
        ctx.rule(x)
    ctx.assumption('real arithmetic; Fresnel integrals exact; covariances symmetric and positive definite')
    ctx.need('filter queries', 2)
    return ('Prediction and update are turned into value graphs (LLVM IR including the matrix library, symbolic state, control, noise, gains and '
            'covariances) and their entries compared, by random interpretation on every branch (straight line, arc, clothoid; both driving directions), '
            'with the textbook filter whose derivatives are taken from the exact motion.')

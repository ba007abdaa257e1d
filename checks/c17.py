"""C17: no admissible shorter path is lost."""
import random
import families, g1, lib, paths, relate, surveys, wrappers
from num import NumErr
from paths import advance
import admit, relations

LIMIT = 'for unlimited sharpness the distance is that of the Reeds-Shepp (Dubins) planner'


def limit(env):
    e = dict(env)
    e['sigma'] = e['kappa'] * e['kappa'] * 1e10
    e['k1'] = e['k2'] = 0j
    return e


def check(a, b, e):
    if abs(a[0] - b[0]) > 1e-4 * (1 + a[0]):
        return '%.9g, without curvature transitions it is %.9g' % (b[0], a[0])


COMB = 'no combination of lead-in, delegated path and lead-out is shorter than what is reported'


def combos(prog, fam, a, n, seed, L):
    """planners for arbitrary boundary curvatures: the distance against all leads to zero and maximum curvature"""
    def f():
        d = relate.WDist(prog, fam, L)
        r = random.Random(seed)
        cnt = {'obligations': 0, 'lead combinations': 0, 'points of the value graph': 0}
        bad = []
        for b in wrappers.CLASSES:
            for _ in range(n):
                e0 = relate.relpoint(r, fam)
                for i, c in zip('12', (a, b)):
                    e0['k' + i] = wrappers.value(c, e0['kappa'], r, 0.0)
                fails = 0
                for m in range(2):
                    e = e0 if m == 0 else relate.real(paths.perturb(e0, r))
                    if m:
                        for i, c in zip('12', (a, b)):
                            if c not in ('pos', 'neg'):
                                e['k' + i] = wrappers.value(c, e['kappa'], r, 0.0)
                    try:
                        v = d.at(e)[0]
                        best = shortest(d, prog, fam, e, L, cnt)
                    except NumErr:
                        continue
                    cnt['obligations'] += 1
                    if v > best + 1e-5 * (1 + best):
                        fails += 1
                        text = 'start curvature %s, goal curvature %s: distance %.9g, %.9g is possible' % (a, b, v, best)
                cnt['points of the value graph'] += 1
                if fails == 2:
                    bad.append((text, e0))
        return {'viol': [(COMB, 'planner ' + fam, bad[0][0] + ' (%d points)' % len(bad), relate.where(bad[0][1]))] if bad else [], 'counts': cnt}
    return f


def shortest(d, prog, fam, e, L, cnt):
    best = 1e300
    K, S = e['kappa'], e['sigma']
    for a in wrappers.pred_options(fam, K, S, e['k1'], False):
        p = advance((e['x1'], e['y1'], e['th1']), (a[2], e['k1'], a[1]))
        for b in wrappers.pred_options(fam, K, S, e['k2'], True):
            # option b is driven from the goal to the predicted state
            g = advance((e['x2'], e['y2'], e['th2']), (b[2], e['k2'], b[1]))
            n = ('hc' if fam == 'hc_rs' else 'cc') + ('pm' if abs(a[0]) > 1e-9 else '0') + ('pm' if abs(b[0]) > 1e-9 else '0')
            f = n + ('_rs' if fam == 'hc_rs' else '_dubins' + fam[-2:])
            if f not in d.subs:
                d.subs[f] = relate.Dist(prog, f, L)
            s = dict(e)
            s.update(zip(('x1', 'y1', 'th1', 'k1', 'x2', 'y2', 'th2', 'k2'), tuple(p) + (a[0],) + tuple(g) + (b[0],)))
            cnt['lead combinations'] += 1
            best = min(best, abs(a[2]) + d.subs[f].at(s)[0] + abs(b[2]))
    return best


def run(ctx):
    prog = ctx.prog
    L = paths.Leaves(prog)
    n, m = (200, 160) if ctx.tier == 'quick' else (400, 1500)
    tasks = []

    def t_admit(f):
        return lambda: admit.survey(prog, f, n if f in families.RS else 2 * n, surveys.seed(), L, 3)

    def t_limit(f, k):
        return lambda: (f, relate.pairwise(prog, 'rs' if f in families.RS else 'dubins' + f[-2:], [f], check, m, surveys.seed() + k, L, limit))
    for f in families.HCCC:
        tasks.append((f, t_admit(f)))
    for f in families.HCCC:
        for k in range(2 if f in families.RS else 1):
            tasks.append((f, t_limit(f, k)))

    for f in wrappers.WRAP:
        for a in wrappers.CLASSES:
            tasks.append((f, combos(prog, f, a, 8 if ctx.tier == 'quick' else 60, surveys.seed(), L)))

    def merge(name, r):
        if type(r) is tuple:
            f, r = r
            for k, v in r['counts'].items():
                ctx.count(k, v)
            for _, l in r['bad'].items():
                ctx.violation(LIMIT, 'planner ' + f, '%s: distance %s' % (f, l[0][1]), relate.where(l[0][0]))
        else:
            ctx.merge_std(name, r)
    lib.fan(tasks, merge, 6)
    ctx.rule(LIMIT)
    ctx.rule(COMB)
    ctx.rule(admit.RULE)
    for x in surveys.ASSUME:
        ctx.assumption(x)
    ctx.need('lead combinations', 2000)
    ctx.need('reversed decisions', 500)
    ctx.need('planner relations', 13)
    return relations.METHOD + ' ' + ' '.join(admit.__doc__.split())

"""Relations between the distances of transformed problems, on the value graph.

A planner's distance is one value-graph node per candidate with a condition of existence; `Dist` interprets their minimum at
a point of the input domain.  Problems are transformed as a whole (poses, curvatures, limits), the graph of the
transformed problem is interpreted and the two lengths compared."""
import cmath, math, random
import families, g1, lib, paths, wrappers
from num import NumErr, PI
from paths import FRESNEL, PathEval, point

SWAPFAM = {'hc0pm_rs': 'hcpm0_rs', 'hcpm0_rs': 'hc0pm_rs'}
for a, b in (('cc00', 'cc00'), ('cc0pm', 'ccpm0'), ('ccpm0', 'cc0pm'), ('ccpmpm', 'ccpmpm')):
    for x, y in ('fb', 'bf'):
        SWAPFAM['%s_dubins_%s' % (a, x)] = '%s_dubins_%s' % (b, y)
for a in ('dubins', 'cc_dubins'):
    SWAPFAM[a + '_f'], SWAPFAM[a + '_b'] = a + '_b', a + '_f'


def flipfam(fam):
    return fam[:-2] + ('_b' if fam.endswith('_f') else '_f') if fam[-2:] in ('_f', '_b') else fam


SUBFAM = {'HC00_Reeds_Shepp': 'hc00_rs', 'HC0pm_Reeds_Shepp': 'hc0pm_rs', 'HCpm0_Reeds_Shepp': 'hcpm0_rs', 'HCpmpm_Reeds_Shepp': 'hcpmpm_rs',
          'CC00_Dubins': 'cc00_dubins', 'CC0pm_Dubins': 'cc0pm_dubins', 'CCpm0_Dubins': 'ccpm0_dubins', 'CCpmpm_Dubins': 'ccpmpm_dubins'}


class WDist:
    """distance of a planner for arbitrary boundary curvatures: its own graph composed with the graphs of its sub-planners"""
    g1 = False

    def __init__(self, prog, fam, leaves=None):
        self.prog, self.fam, self.L = prog, fam, leaves
        self.graphs, self.subs = {}, {}

    def graph(self, c1, c2):
        q = self.graphs.get((c1, c2))
        if q is None:
            q = self.graphs[c1, c2] = wrappers.W(self.prog, self.fam, c1, c2)
            q.discover('dst_' + self.fam)
        return q

    def at(self, env):
        w = self
        q = self.graph(*(wclass(env[k], env['kappa']) for k in ('k1', 'k2')))
        near = [1e30]

        class E(wrappers.WEval):
            def sublen(self, n, a):
                f = SUBFAM[n] + (w.fam[-2:] if n.endswith('Dubins') else '')
                if f not in w.subs:
                    w.subs[f] = Dist(w.prog, f, w.L)
                e = dict(env)
                e.update(zip(('x1', 'y1', 'th1', 'k1', 'x2', 'y2', 'th2', 'k2'), a))
                v, _, m = w.subs[f].at(e)
                near[0] = min(near[0], m)
                return complex(v)
        e = E(q, env)
        if not q.exist:
            return e.double('distance').real, None, min(e.near, near[0])
        best, win = None, None
        for i, c in q.exist.items():
            if e.cond(c):
                v = e.val(q.cands[i]).real
                if best is None or v < best:
                    best, win = v, i
        if best is None:
            raise NumErr('no candidate exists')
        return best, None, min(e.near, near[0])


def wclass(k, K):
    k, K = k.real, K.real
    return 'zero' if abs(k) < 1e-9 else 'max' if abs(k - K) < 1e-9 else 'min' if abs(k + K) < 1e-9 else 'pos' if k > 0 else 'neg'


def dist(prog, fam, leaves=None):
    return (WDist if fam in wrappers.WRAP else Dist)(prog, fam, leaves)


class Dist:
    def __init__(self, prog, fam, leaves=None):
        self.fam = fam
        self.g1 = fam in g1.FAMS
        if self.g1:
            self.q = g1.G(prog, fam, ('dst_' + fam,))
        else:
            self.q = families.pass1(prog, fam, 'dst_', stubs=FRESNEL)
            self.L = leaves or paths.Leaves(prog)

    def at(self, env):
        """(length, winner, margin of the decisions taken)"""
        q = self.q
        if self.g1:
            e = g1.GEval(q, env)
            return e.double('distance').real, None, e.near
        e = PathEval(q, self.L, env)
        best, win = None, None
        for i, c in q.exist.items():
            if e.cond(c):
                v = e.val(q.cands[i]).real
                if best is None or v < best:
                    best, win = v, i
        if best is None:
            raise NumErr('no candidate exists')
        return best, win, e.near


class TDist:
    """distance over the candidates with at most three turns: the continuous-curvature Dubins planner between maximum curvatures knows
    words of four turns, for which the planners with more freedom have no counterpart"""
    g1 = False

    def __init__(self, prog, fam, leaves=None):
        self.fam, self.L = fam, leaves or paths.Leaves(prog)
        self.q = families.pass1(prog, fam, 'ctl_', stubs=FRESNEL)
        self.q.run('ctl_' + fam, self.q.scenarios(sorted(self.q.exist)))

    def at(self, env):
        q = self.q
        e = PathEval(q, self.L, env)
        best = None
        for i in sorted(q.exist):
            p = paths.at(q, self.L, env, i, self.fam, e, False)
            if p is not None and (best is None or p.length.real < best) and sum(w[0] in 'LR' for w in paths.shape(p.cs).split()) < 4:
                best = p.length.real
        if best is None:
            raise NumErr('no candidate with three turns')
        return best, None, e.near


# ---- transformations of a planning problem: (name, rule text, env -> env, factor on lengths, family -> family)
def rigid(e, r):
    a, dx, dy = r.uniform(-PI, PI), r.uniform(-5, 5), r.uniform(-5, 5)
    f = dict(e)
    for i in '12':
        x, y = e['x' + i], e['y' + i]
        f['x' + i] = dx + x * math.cos(a) - y * math.sin(a)
        f['y' + i] = dy + x * math.sin(a) + y * math.cos(a)
        f['th' + i] = e['th' + i] + a
    return f, 1


def period(e, r):
    f = dict(e)
    for i in '12':
        f['th' + i] = e['th' + i] + 2 * PI * r.choice([-2, -1, 0, 1, 2])
    return f, 1


def scale(e, r):
    l = math.exp(r.uniform(-1.5, 1.5))
    f = dict(e)
    for i in '12':
        f['x' + i] = e['x' + i] * l
        f['y' + i] = e['y' + i] * l
        f['k' + i] = e['k' + i] / l
    f['kappa'] = e['kappa'] / l
    f['sigma'] = e['sigma'] / (l * l)
    return f, l


def mirror(e, r):
    f = dict(e)
    for i in '12':
        for n in ('y', 'th', 'k'):
            f[n + i] = -e[n + i]
    return f, 1


def reverse(e, r):
    f = dict(e)
    for i in '12':
        for n in ('x', 'th'):
            f[n + i] = -e[n + i]
    return f, 1


def swap(e, r):
    f = dict(e)
    for n in ('x', 'y', 'th', 'k'):
        f[n + '1'], f[n + '2'] = e[n + '2'], e[n + '1']
    return f, 1


same_fam = lambda f: f
swap_fam = lambda f: SWAPFAM.get(f, f)
RIGID = ('rigid motion', 'moving and turning start and goal together leaves the distance unchanged', rigid, same_fam)
PERIOD = ('full turns', 'adding full turns to the start or goal heading leaves the distance unchanged', period, same_fam)
SCALE = ('scaling', 'enlarging the problem enlarges the distance by the same factor (limits adapted accordingly)', scale, same_fam)
MIRROR = ('mirror image', 'the mirrored problem has the same distance', mirror, same_fam)
REVERSE = ('driving backwards', 'the problem driven in the opposite direction has the same distance', reverse, flipfam)
SWAP = ('exchange', 'exchanging start and goal leaves the distance unchanged (driving direction exchanged)', swap, swap_fam)


def relpoint(r, fam):
    e = point(r, 0.0, r.random() < 0.4)
    if r.random() < 0.4:
        # a goal at the end of a short random manoeuvre: words with many turns are seldom the shortest elsewhere
        cs, d, s = [], 1, 1
        for _ in range(r.randint(2, 5)):
            d = r.choice([-1, 1]) if fam[-2:] not in ('_f', '_b') else 1
            s = r.choice([-s, -s, s])
            L = e['kappa'] / e['sigma'] if fam not in g1.FAMS else 0
            if L and r.random() < 0.7:
                cs.append((d * L, 0j, s * e['sigma']))
            cs.append((d * r.uniform(0.05, 1.5) / e['kappa'], s * e['kappa'], 0j))
            if L and r.random() < 0.7:
                cs.append((d * L, s * e['kappa'], -s * e['sigma']))
            if r.random() < 0.2:
                cs.append((complex(d * r.uniform(0.1, 2)), 0j, 0j))
        e['x2'], e['y2'], e['th2'] = paths.end_pose((e['x1'], e['y1'], e['th1']), cs)
        for n in ('th1', 'th2'):
            e[n] = complex(math.remainder(e[n].real, 2 * PI))
        for n in ('k1', 'k2'):
            e[n] = complex(r.choice([-1, 0, 1]) * r.uniform(0.2, 1) * e['kappa'].real)
        return e
    for n in ('th1', 'th2'):
        e[n] = complex(r.uniform(-PI, PI))
    # signs of the boundary curvatures matter for some planners only
    for n in ('k1', 'k2'):
        e[n] = complex(r.choice([-1, 0, 1]) * r.uniform(0.2, 1) * e['kappa'].real)
    return e


def real(env):
    return {k: complex(complex(v).real) if k != 'word' else v for k, v in env.items()}


def compare(d1, d2, env, tf, r, tol, known=None):
    """None (skipped) or (ok, text)"""
    f, fac = tf(env, r)
    a, i, m1 = known or d1.at(env)
    b, j, m2 = d2.at(f)
    if abs(a * fac - b) <= tol * (1 + abs(b)):
        return True, None
    if min(m1, m2) < 3e-4:
        return None
    return False, '%.9g instead of %.9g' % (b, a * fac)


FREER = [('rs', 'dubins_f'), ('rs', 'dubins_b'), ('rs', 'hc00_rs'), ('rs', 'hc0pm_rs'), ('rs', 'hcpm0_rs'), ('rs', 'hcpmpm_rs'), ('rs', 'cc00_rs')]
FREER += [('rs', 'hc_rs')]
for x in 'fb':
    FREER += [('hc00_rs', 'cc00_dubins_' + x), ('dubins_' + x, 'cc_dubins_' + x)]
    FREER += [('dubins_' + x, 'cc%s_dubins_%s' % (v, x)) for v in ('00', '0pm', 'pm0', 'pmpm')]
    FREER += [('cc00_rs', 'cc00_dubins_' + x), ('hcpmpm_rs', 'ccpmpm_dubins_' + x), ('hc0pm_rs', 'cc0pm_dubins_' + x), ('hcpm0_rs', 'ccpm0_dubins_' + x)]


def pairwise(prog, free, fams, check, n, seed, leaves=None, prepare=None):
    """check(a, b, env) -> text of a violation or None, for the distances of `free` and of every planner in fams"""
    D = {f: TDist(prog, f, leaves) if f.startswith('ccpmpm') and free.startswith('hcpmpm') else dist(prog, f, leaves) for f in [free] + fams}
    r = random.Random(seed * 77 + 5)
    cnt = {'obligations': 0, 'points of the value graph': 0, 'points skipped (ill-conditioned)': 0, 'planner relations': len(fams)}
    bad = {}
    for k in range(n):
        f = fams[k % len(fams)]
        for f in ([f] if f in families.RS or f in wrappers.WRAP else fams):
            env = relpoint(r, f if r.random() < 0.5 else '')
            if prepare:
                env = prepare(env)
            cnt['points of the value graph'] += 1
            try:
                fails = 0
                for m in range(3):
                    e = env if m == 0 else real(paths.perturb(env, r))
                    if prepare:
                        e = prepare(e)
                    a, b = D[free].at(e), D[f].at(e)
                    w = check(a, b, e)
                    if not w:
                        break
                    fails += 1
                    if m == 0:
                        text = w
                cnt['obligations'] += 1
                if fails == 3:
                    bad.setdefault(f, []).append((env, text))
            except NumErr:
                cnt['points skipped (ill-conditioned)'] += 1
    return {'counts': cnt, 'bad': bad}


def where(env):
    return ['point: ' + ', '.join('%s=%.6g' % (a, complex(b).real) for a, b in sorted(env.items()) if a not in ('word', 'disc', 'd_in'))]


def survey(prog, fam, rels, n, seed, leaves=None, dists=None, cap=None, part=(0, 1), cls=None):
    """relations of planner fam at n points, chosen so that every candidate that is ever the shortest is represented (at most cap
    points each); candidates that exist at none of the points are looked for by repairing decisions"""
    dists = dists if dists is not None else {}

    def D(f):
        if f not in dists:
            dists[f] = dist(prog, f, leaves)
        return dists[f]
    r = random.Random(seed * 1000 + len(fam))
    cnt = {'obligations': 0, 'points of the value graph': 0, 'points skipped (ill-conditioned)': 0, 'planner relations': len(rels), 'points sought in the region of a candidate': 0}
    d1 = D(fam)
    bad = {}
    wins = {}

    def relation(env, a):
        for name, rule, tf, ff in rels:
            d2 = D(ff(fam))
            try:
                s = r.getstate()
                x = compare(d1, d2, env, tf, r, 1e-6, a)
                if x is None:
                    cnt['points skipped (ill-conditioned)'] += 1
                    continue
                cnt['obligations'] += 1
                if x[0]:
                    continue
                # confirm in the neighbourhood
                ok = 0
                rr = random.Random(5)
                for _ in range(3):
                    r2 = random.Random()
                    r2.setstate(s)
                    y = compare(d1, d2, real(paths.perturb(env, rr)), tf, r2, 1e-6)
                    ok += y is not None and not y[0]
                if ok == 3:
                    bad.setdefault((name, rule), []).append((env, x[1]))
            except NumErr as ex:
                cnt['points skipped (ill-conditioned)'] += 1
    pool = []
    for k in range(n):
        env = relpoint(r, fam)
        if fam in wrappers.WRAP:
            for i, c in zip('12', cls):
                env['k' + i] = wrappers.value(c, env['kappa'], r, 0.0)
        try:
            a = d1.at(env)
        except NumErr:
            cnt['points skipped (ill-conditioned)'] += 1
            continue
        cnt['points of the value graph'] += 1
        pool.append(env)
        w = wins.setdefault(a[1], [0])
        w[0] += 1
        if cap is None or w[0] <= cap or a[1] is None:
            relation(env, a)
    if not d1.g1 and fam not in wrappers.WRAP:
        pl = paths.Place(d1.q, d1.L)
        for j in sorted(d1.q.exist)[part[0]::part[1]]:
            if j in wins or pl.evals > 6000:
                continue
            got = 0
            for env in pl.finds(j, pool[:120]):
                got += 1
                try:
                    a = d1.at(env)
                except NumErr:
                    continue
                cnt['points sought in the region of a candidate'] += 1
                if a[1] == j or got == 1:
                    relation(env, a)
                if a[1] == j or got >= 6:
                    break
    return {'viol': [(rule, 'planner ' + fam, '%s: distance %s, at %d of %d points' % (name, b[0][1], len(b), n), where(b[0][0]))
                     for (name, rule), b in sorted(bad.items())], 'counts': cnt}

"""The elementary functions everything else is built on: their value graphs against their mathematical definition."""
import cmath, math, random
import lib
from num import Eval, NumErr, PI
from paths import FRESNEL, HOOKS, advance, fresnel_val
from query import Q

R_FRES = 'the Fresnel routine returns both Fresnel integrals'
R_ANG = 'an angle is reduced to one turn without changing the direction it stands for'
R_MOVE = 'the closed-form end of a clothoid, arc or straight line is the end of the exact motion'
R_FRAME = 'frame changes, distances and polar coordinates are the Euclidean ones (the two frame changes are inverse to each other)'
R_MIN = 'the index of the smallest element of an array is returned'
FTOL = 1e-11


def graph(prog, drv, stubs=None):
    q = Q(prog, stubs=stubs or {}, partition=False, turns=False)
    q.run(drv)
    if q.I.unmodelled:
        raise lib.Broken('%s: not modelled: %s' % (drv, sorted(q.I.unmodelled)[:3]))
    return q


def value(q, env, name):
    e = Eval(q.B, env, None, HOOKS)
    for pc, t in q.doubles[name]:
        if e.cond(pc):
            return e.val(t)
    raise NumErr('no value ' + name)


def borders(q, sym, grid):
    """arguments around which some decision of the graph changes"""
    out = []
    atoms = [v for v, i in enumerate(q.B.info) if i and i[0] == 'lt']

    def margins(a):
        e = Eval(q.B, {sym: complex(a)}, None, HOOKS)
        r = {}
        for v in atoms:
            try:
                r[v] = (e.val(q.B.info[v][1]) - e.val(q.B.info[v][2])).real
            except NumErr:
                pass
        return r
    last = None
    for a in grid:
        m = margins(a)
        if last:
            for v in m:
                if v in last[1] and (m[v] < 0) != (last[1][v] < 0):
                    lo, hi, s = last[0], a, last[1][v] < 0
                    for _ in range(40):
                        c = 0.5 * (lo + hi)
                        if (margins(c).get(v, 0) < 0) == s:
                            lo = c
                        else:
                            hi = c
                    out += [lo, hi] + [c + f * w for c in (lo,) for w in (1e-9, 1e-6, 1e-4, 1e-3, 1e-2) for f in (-1, 1)]
        last = (a, m)
    return out


def fresnel(prog, n=600, seed=1):
    """standard result: the Fresnel routine on both sides of each of its decisions and in between"""
    q = graph(prog, 'drv_fresnel')
    r = random.Random(seed)
    pts = [r.uniform(-3, 3) for _ in range(n)] + [s * math.exp(r.uniform(-9, 3.4)) for _ in range(n // 3) for s in (-1, 1)]
    pts += [k / 200.0 for k in range(-1000, 1001, 7)] + [0.0]
    pts += [s * math.exp(r.uniform(3.4, 28)) for _ in range(n // 6) for s in (-1, 1)] + [s * math.exp(-9 - k / 2.0) for k in range(80) for s in (-1, 1)]
    grid = [k / 100.0 for k in range(1001)] + [10 + k / 4.0 for k in range(1, 80)] + [30 * math.exp(k / 16.0) for k in range(400)]
    pts += borders(q, 'a', [-a for a in reversed(grid)] + grid[1:])
    bad = []
    for a in pts:
        try:
            s, c = value(q, {'a': complex(a)}, 'S'), value(q, {'a': complex(a)}, 'C')
        except (NumErr, OverflowError, ZeroDivisionError) as x:
            bad.append((a, 'no value: %s' % x))
            continue
        tol = FTOL
        if abs(a) > 1e4:
            es, ec, tol = 0.5, 0.5, 1.001 / (PI * abs(a)) + FTOL      # the phase is beyond double precision: the amplitude only
        elif abs(a) < 7:
            es, ec = (z.real for z in fresnel_val(complex(abs(a))))
        else:
            es, ec = asym(abs(a))
        if a < 0:
            es, ec = -es, -ec
        if not (abs(s - es) <= tol and abs(c - ec) <= tol):
            bad.append((a, 'S, C = %.12g, %.12g, exact %.12g, %.12g' % (s.real, c.real, es, ec)))
    v = []
    if bad:
        v = [(R_FRES, 'src/utilities/utilities.cpp (steering::fresnel)', 'fresnel(%.9g): %s (%d of %d arguments)' % (bad[0] + (len(bad), len(pts))), None)]
    return {'counts': {'obligations': 2 * len(pts), 'points of the value graph': len(pts), 'Fresnel arguments': len(pts)}, 'viol': v}


def asym(a):
    """asymptotic expansion of the auxiliary functions, far beyond double precision for a >= 7"""
    x = PI * a * a
    f = g = 0.0
    t = 1.0
    for m in range(0, 20):
        f += t
        u = t * (4 * m + 1) / x
        g += u
        t = -u * (4 * m + 3) / x
    f, g = f / (PI * a), g / (PI * a)
    w = 0.5 * PI * math.fmod(a * a, 4.0)
    return 0.5 - f * math.cos(w) - g * math.sin(w), 0.5 + f * math.sin(w) - g * math.cos(w)


def utilities(prog, n=400, seed=1):
    q = graph(prog, 'drv_util', FRESNEL)
    r = random.Random(seed)
    bad = {}
    cnt = {'obligations': 0, 'points of the value graph': 0}

    def fail(rule, name, what):
        bad.setdefault((rule, name), []).append(what)

    def angles(a, exact=False):
        cnt['obligations'] += 2
        for name, lo, hi in (('twopify', 0.0, 2 * PI), ('pify', -PI, PI)):
            try:
                z = value(q, {'a': complex(a)}, name).real
            except NumErr as x:
                fail(R_ANG, name, '%s(%.9g): %s' % (name, a, x))
                continue
            k = (z - a) / (2 * PI)
            if abs(k - round(k)) > 1e-9 * (1 + abs(k)) or z < lo - 1e-9 or z > hi + 1e-9:
                fail(R_ANG, name, '%s(%.9g) = %.9g' % (name, a, z))
            elif exact and z > hi - 1e-9:
                # the argument is an exact multiple: which of the two ends of the range is taken is no matter of rounding
                fail(R_ANG, name, '%s(%.9g) = %.9g' % (name, a, z))
    for k in range(-26, 27):
        for d in (0.0, 1e-6, -1e-6, 1e-3, -1e-3):
            angles(0.5 * k * PI + d)
    for k in (0, 1, 2, 4, 8, 16, 32, -1, -2, -4, -8, -16, -32):      # exact in double precision
        angles(k * 2 * PI, True)
    for _ in range(n):
        angles(r.uniform(-60, 60))
        angles(r.uniform(-7, 7))
    for a in borders(q, 'a', [k / 50.0 for k in range(-2000, 2001)]):
        angles(a)

    def cmpv(rule, env, name, want, mod=False):
        cnt['obligations'] += 1
        try:
            z = value(q, env, name)
        except (NumErr, OverflowError, ZeroDivisionError) as x:
            fail(rule, name, 'no value: %s' % x)
            return
        d = z - want
        if mod:
            d = complex(math.remainder(d.real, 2 * PI), d.imag)
        if abs(d) > 1e-8 * (1 + abs(want)):
            fail(rule, name, '%.9g instead of %.9g for %s' % (z.real, complex(want).real, ', '.join('%s=%.6g' % (k, v.real) for k, v in sorted(env.items()))))
    for j in range(n):
        e = {k: complex(r.uniform(-4, 4)) for k in ('a', 'b', 'x', 'y', 'th', 'k', 's')}
        e['d'] = complex(r.choice([-1, 1]))
        e['l'] = complex(r.uniform(0.01, 3))
        if j % 5 == 0:
            e['k'] = complex(r.choice([0, 1, -1]) * r.uniform(0.1, 1))
        cnt['points of the value graph'] += 1
        p = (e['x'], e['y'], e['th'])
        w = advance(p, (e['d'] * e['l'], e['k'], e['s']))
        for nm, v, m in zip('x y theta'.split(), w, (0, 0, 1)):
            cmpv(R_MOVE, e, 'clothoid_' + nm, v, m)
        cmpv(R_MOVE, e, 'clothoid_kappa', e['k'] + e['s'] * e['l'])
        if abs(e['k']) > 1e-6:
            w = advance(p, (e['d'] * e['l'], e['k'], 0j))
            for nm, v, m in zip('x y theta'.split(), w, (0, 0, 1)):
                cmpv(R_MOVE, e, 'arc_' + nm, v, m)
        cmpv(R_MOVE, e, 'line_x', e['x'] + e['d'] * e['l'] * cmath.cos(e['th']))
        cmpv(R_MOVE, e, 'line_y', e['y'] + e['d'] * e['l'] * cmath.sin(e['th']))
        c, s = cmath.cos(e['th']), cmath.sin(e['th'])
        cmpv(R_FRAME, e, 'global_x', e['x'] + e['a'] * c - e['b'] * s)
        cmpv(R_FRAME, e, 'global_y', e['y'] + e['a'] * s + e['b'] * c)
        cmpv(R_FRAME, e, 'local_x', (e['a'] - e['x']) * c + (e['b'] - e['y']) * s)
        cmpv(R_FRAME, e, 'local_y', -(e['a'] - e['x']) * s + (e['b'] - e['y']) * c)
        cmpv(R_FRAME, e, 'point_distance', math.hypot((e['a'] - e['x']).real, (e['b'] - e['y']).real))
        cmpv(R_FRAME, e, 'polar_r', math.hypot(e['x'].real, e['y'].real))
        cmpv(R_FRAME, e, 'polar_theta', math.atan2(e['y'].real, e['x'].real), True)
        cmpv(R_FRAME, e, 'sgn', 1 if e['a'].real > 0 else -1)
    m = graph(prog, 'drv_minindex')
    for j in range(n):
        v = [r.choice([r.uniform(-2, 9), float(r.randint(0, 3)), 1.7976931348623157e308]) for _ in range(5)]
        cnt['obligations'] += 1
        try:
            z = value(m, {'v%d' % i: complex(x) for i, x in enumerate(v)}, 'index').real
            ok = z == int(z) and 0 <= z < 5 and v[int(z)] == min(v)
        except (NumErr, OverflowError) as x:
            ok, z = False, str(x)
        if not ok:
            fail(R_MIN, 'array_index_min', 'index %s for %s' % (z, ['%.4g' % x for x in v]))
    return {'counts': cnt, 'viol': [(ru, 'src/utilities/utilities.cpp (%s)' % nm.split('_x')[0], '%s (%d points)' % (w[0], len(w)), None) for (ru, nm), w in sorted(bad.items())]}


RULES = [R_ANG, R_MOVE, R_FRAME, R_MIN]

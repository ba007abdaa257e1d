"""Sampling and interpolation of a path given by controls: the value graph of a sampling query against the exact path."""
import cmath, math, random
import ekf, lib, paths
from num import Eval, NumErr, PI
from query import Q, SF
from interp import Ptr, U, Undecided
from paths import FRESNEL, HOOKS, advance, sgnr

TOL = 1e-6
# what is left of the last step of a segment: also very little, or almost all of it
RESTS = [0.25, 0.5, 0.75, 2.0 ** -6, 1 - 2.0 ** -6, 2.0 ** -9, 1 - 2.0 ** -9, 2.0 ** -13, 1 - 2.0 ** -13]


class Sampled(Q):
    """stubs planning by a given list of control symbols and remembers what it was asked for"""

    def __init__(self, prog, n, unroll):
        self.asked = []
        st = dict(FRESNEL)
        for c in CLASS.values():
            st['steering::%s_State_Space::get_controls' % c] = self.s_plan(c, n)
        Q.__init__(self, prog, stubs=st, partition=False, turns=False, opts={'unroll': unroll})

    def s_plan(self, c, n):
        def f(I, name, args, ins, pc):
            mod = ins.fn.mod
            out, this, a, b = args
            vals = []
            for p in (a, b):
                p = I.simp(p, pc)
                if type(p) is not Ptr or p.obj is None:
                    raise Undecided('gated state argument')
                vals += self.fields(p, 'state', SF[:4], pc, mod)
            self.asked.append((c, vals, pc))
            I.memset(out, 0, 24, pc)
            for i in range(1, n + 1):
                self.push(out, I.t.sym('ds%d' % i), I.t.sym('ck%d' % i), I.t.sym('cs%d' % i), ins, pc)
            return U('x')
        return f


CLASS = {'rs': 'Reeds_Shepp', 'dubins': 'Dubins', 'hc_rs': 'HC_Reeds_Shepp', 'cc_dubins': 'CC_Dubins', 'cc00_rs': 'CC00_Reeds_Shepp'}
for v in ('00', '0pm', 'pm0', 'pmpm'):
    CLASS['hc%s_rs' % v] = 'HC%s_Reeds_Shepp' % v
    CLASS['cc%s_dubins' % v] = 'CC%s_Dubins' % v


def klass(fam):
    return CLASS[fam[:-2] if fam[-2:] in ('_f', '_b') else fam]


# ---- problems
def problem(r, n, steps, clothoids, mode):
    """a problem without curvatures or curvature jumps below the comparison tolerance of the library (which it may take for zero)"""
    while True:
        e = draw(r, n, steps, clothoids, mode)
        ends = [paths.curv(c)[1].real for c in e['cs']]
        js = ends + [c[1].real - a for a, c in zip(ends, e['cs'][1:])]
        if not any(1e-9 < abs(z) < 1e-3 for z in js):
            return e


def draw(r, n, steps, clothoids, mode):
    """start state, n controls with at most `steps` samples in total"""
    dy = lambda a, b: complex(r.randint(int(a * 64), int(b * 64)) / 64.0)
    e = {'kappa': 1 + 0j, 'sigma': 1 + 0j, 'disc': complex(r.choice([0.125, 0.25, 0.5]))}
    e['x'], e['y'], e['th'], e['k'], e['d'] = dy(-4, 4), dy(-4, 4), complex(r.uniform(-7, 7)), dy(-1, 1), complex(r.choice([-1, 0, 1]))
    D = e['disc'].real
    left = steps
    cs = []
    for i in range(n):
        m = r.randint(1, max(1, left - (n - 1 - i)))
        left -= m
        u = r.random()
        if u < 0.35:
            L = m * D                                    # a whole number of steps
        elif u < 0.5 and mode == 'zero':
            L = 0.0
        else:
            L = (m - 1) * D + D * r.choice(RESTS)
        d = r.choice([-1, 1])
        k, s = r.choice([0.0, 0.5, -0.5, -0.75, 1.0]), 0.0
        if cs and r.random() < 0.2:
            k = -cs[-1][1].real                          # the curvature changes sides, as at a cusp
        if clothoids:
            v = r.random()
            if v < 0.4:
                s = r.choice([0.5, -1.0, 2.0])
            if cs and r.random() < 0.6:
                k = paths.curv(cs[-1])[1].real           # no jump
                if abs(k) < 1e-9:
                    k = 0.0
        cs.append((complex(d * L), complex(k), complex(s)))
    for i, c in enumerate(cs, 1):
        e['ds%d' % i], e['ck%d' % i], e['cs%d' % i] = c
    e['cs'] = cs
    return e


def exact(e):
    """expected samples: (pose, curvature, direction or None, optional, step that leads there)"""
    D = e['disc'].real
    p = (e['x'], e['y'], e['th'])
    cs = e['cs']
    out = [(p, cs[0][1], sgnr(cs[0][0]) or None, False, None)]
    k = cs[0][1]
    for i, c in enumerate(cs):
        L = abs(c[0])
        d = sgnr(c[0])
        if i:
            # the end of a segment may be repeated as the beginning of the next; where the curvature jumps it has to be
            out.append((p, c[1], d or None, L == 0 or abs(c[1] - k) < 1e-5, None))
        k = c[1]
        if L == 0:
            continue
        n = math.ceil(L / D - 1e-9)
        for i in range(1, n + 1):
            s, s0 = min(i * D, L), (i - 1) * D
            st = (advance(p, (d * s0 + 0j, c[1], c[2]))[2].real, (c[1] + c[2] * s0).real, c[2].real, d, s - s0)
            out.append((advance(p, (d * s + 0j, c[1], c[2])), c[1] + c[2] * s, d, False, st))
        p, k = out[-1][0], out[-1][1]
    return out


def near(a, b, mod=False):
    z = a - b
    if mod:
        z = complex(math.remainder(z.real, 2 * PI), z.imag)
    return abs(z) < TOL


def matches(act, exp):
    x, y, th, k, d = act
    p, ek, ed = exp[:3]
    return near(x, p[0]) and near(y, p[1]) and near(th, p[2], True) and near(k, ek) and (ed is None or near(d, complex(ed)))


def describe(s):
    return '(%.6g, %.6g, %.6g) curvature %.6g direction %g' % tuple(z.real for z in s)


def compare(act, exp):
    """None, or what is wrong; a zero-length segment may or may not be represented by a sample of its own"""
    i = 0
    for e in exp:
        if i < len(act) and matches(act[i], e):
            i += 1
        elif not e[3]:
            ed = '(%.6g, %.6g, %.6g) curvature %.6g direction %s' % (e[0][0].real, e[0][1].real, e[0][2].real, e[1].real, e[2])
            return 'sample %d is %s, expected %s' % (i, describe(act[i]) if i < len(act) else 'missing', ed)
    if i < len(act):
        return 'surplus sample %d: %s' % (i, describe(act[i]))


def states(q, e):
    """the states a query returns at a point of the value graph"""
    n = len(q.doubles.get('x', []))
    out = []
    for i in range(n):
        pc = q.doubles['x'][i][0]
        if e.cond(pc):
            out.append(tuple(e.val(q.doubles[f][i][1]) for f in ('x', 'y', 'theta', 'kappa', 'd')))
    return out


def inter(e, t):
    """acceptable states at the fraction t: list of (pose, curvature, direction or None)"""
    cs = e['cs']
    tot = sum(abs(c[0]) for c in cs)
    p = (e['x'], e['y'], e['th'])
    if t <= 0:
        return [(p, cs[0][1], sgnr(cs[0][0]) or None, False)]
    s = min(t, 1.0) * tot
    out = []
    a = 0.0
    for c in cs:
        L, d = abs(c[0]), sgnr(c[0])
        u = min(max(s - a, 0.0), L)
        if a - 1e-9 <= s <= a + L + 1e-9:
            out.append((advance(p, (d * u + 0j, c[1], c[2])), c[1] + c[2] * u, d or None, False))
        p = advance(p, c)
        a += L
    return out


def check_int(q, r, n, clothoids, count):
    bad = []
    cnt = {'obligations': 0, 'points of the value graph': 0}
    for j in range(count):
        e = problem(r, n, q.steps, clothoids, 'zero' if j % 2 else 'plain')
        ev = Eval(q.B, e, None, HOOKS)
        exp = exact(e)
        cnt['points of the value graph'] += 1
        cnt['obligations'] += len(exp)
        try:
            act = states(q, ev)
        except (NumErr, OverflowError, ZeroDivisionError) as x:
            bad.append(('no value: %s' % x, e))
            continue
        m = compare(act, exp)
        if m:
            bad.append((m, e))
    return cnt, bad


def check_itp(q, r, n, clothoids, count):
    bad = []
    cnt = {'obligations': 0, 'points of the value graph': 0}
    for j in range(count):
        e = problem(r, n, q.steps, clothoids, 'zero' if j % 2 else 'plain')
        tot = sum(abs(c[0]) for c in e['cs'])
        ts = [r.uniform(0, 1), r.uniform(0, 1), 0.0, -0.5, 1.0, 1.5]
        a = 0.0
        for c in e['cs'][:-1]:
            a += abs(c[0])
            if tot and (a / tot) * tot == a:
                ts.append(a / tot)
        for t in ts:
            e['t'] = complex(t)
            exp = inter(e, t)
            cnt['points of the value graph'] += 1
            cnt['obligations'] += 1
            try:
                act = states(q, Eval(q.B, e, None, HOOKS))
            except (NumErr, OverflowError, ZeroDivisionError) as x:
                bad.append(('t = %g: no value: %s' % (t, x), dict(e)))
                continue
            if len(act) != 1 or not any(matches(act[0], x) for x in exp):
                x = exp[0]
                bad.append(('t = %g: %s, expected (%.6g, %.6g, %.6g) curvature %.6g direction %s' % (
                    t, describe(act[0]) if act else 'missing', x[0][0].real, x[0][1].real, x[0][2].real, x[1].real, x[2]), dict(e)))
    return cnt, bad


def where(e):
    return {'start': [round(e[k].real, 6) for k in ('x', 'y', 'th')], 'discretization': e['disc'].real, 't': e['t'].real if 't' in e else None,
            'controls (delta_s, kappa, sigma)': [[z.real for z in c] for c in e['cs']]}


# ---- covariances along the path
def mats(q, e):
    """Sigma, Lambda and total covariance of each returned state"""
    out = []
    for i in range(len(q.doubles.get('x', []))):
        if e.cond(q.doubles['x'][i][0]):
            out.append([[[e.val(q.doubles['%s%d' % (p, 4 * a + b)][i][1]) for b in range(3)] for a in range(3)] for p in 'SLC'])
    return out


def cov_error(q, e, ev, S, L, cnt):
    """None, or what is wrong with the covariances of the returned states"""
    try:
        act, cov = states(q, ev), mats(q, ev)
    except (NumErr, OverflowError, ZeroDivisionError) as x:
        return 'no value: %s' % x
    i, want = 0, (S, L)
    for x in exact(e):
        if x[4]:
            want = ekf.update(e, *ekf.predict(e, want[0], want[1], *x[4]))
        if i < len(act) and matches(act[i], x):
            cnt['obligations'] += 3
            for nm, a, b in zip(('Sigma', 'Lambda', 'covariance'), cov[i], (want[0], want[1], ekf.add(*want))):
                if not ekf.close(a, b):
                    return 'sample %d: %s is %s, expected %s' % (i, nm, ekf.show(a), ekf.show(b))
            i += 1
        elif not x[3]:
            return 'sample %d is not on the path' % i


def check_cov(q, r, n, clothoids, count):
    bad = []
    cnt = {'obligations': 0, 'points of the value graph': 0}
    for j in range(count):
        e = problem(r, n, q.steps, clothoids, 'zero' if j % 2 else 'plain')
        ekf.noise(r, e)
        S, L = ekf.covariances(r, e)
        cnt['points of the value graph'] += 1
        m = cov_error(q, e, Eval(q.B, e, None, HOOKS), S, L, cnt)
        if m:
            bad.append((m, e))
    return cnt, bad

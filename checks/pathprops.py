"""Obligations on single candidate paths, used by several properties."""
from paths import sgnr, curv, drop_zero
from num import same

TOL = 1e-5


def total(cs):
    return sum(c[0] * sgnr(c[0]) for c in cs)


def v_length(p):
    out = []
    t = total(p.cs)
    if p.length is not None and not same(t, p.length, TOL):
        out.append(('the length used to rank a candidate is the length of the path it produces',
                    'ranked with %.9g, emitted controls sum to %.9g' % (p.length.real, t.real)))
    if p.dist is not None and not same(t, p.dist, TOL):
        out.append(('the reported distance is the length of the returned path', 'distance %.9g, controls sum to %.9g' % (p.dist.real, t.real)))
    return 2, out


def v_goal(p):
    e = p.goal_error()
    if e > TOL * (10 + abs(total(p.cs))):
        return 1, [('following the controls from the start pose ends in the goal pose', 'misses the goal pose by %.3g' % e)]
    return 1, []


def v_continuity(p):
    cs = drop_zero(p.cs)
    out = []
    K = abs(p.env['kappa'])
    for a, b in zip(cs, cs[1:]):
        if p.fam.startswith('hc') and sgnr(a[0]) != sgnr(b[0]):
            continue
        d = curv(a)[1] - curv(b)[0]
        if abs(d) > TOL * (1 + K):
            out.append(('curvature is continuous' + (' between direction switches' if p.fam.startswith('hc') else ' along the whole path'),
                        'curvature jumps from %.6g to %.6g' % (curv(a)[1].real, curv(b)[0].real)))
            break
    return max(len(cs) - 1, 1), out


def v_direction(p):
    d = 1 if p.fam.endswith('_f') else -1
    for c in p.cs:
        if c[0].real * d < -1e-7:
            return len(p.cs), [('a forward-only (backward-only) space never drives the other way', 'segment of signed length %.6g' % c[0].real)]
    return len(p.cs), []


def v_bounds(p):
    K, S = abs(p.env['kappa'].real), abs(p.env['sigma'].real)
    out = []
    for c in p.cs:
        for k in curv(c):
            if abs(k.real) > K * (1 + 1e-6):
                out.append(('curvature never exceeds the configured maximum', 'curvature %.6g with maximum %.6g' % (k.real, K)))
        if abs(c[2].real) > S * (1 + 1e-6):
            out.append(('sharpness never exceeds the configured maximum', 'sharpness %.6g with maximum %.6g' % (c[2].real, S)))
    return 3 * len(p.cs), out[:2]


def v_boundary(p):
    from paths import ends
    z0, z1 = ends(p.fam)
    K = p.env['kappa']
    if not p.cs:
        return 1, []
    tol = TOL * (1 + abs(K))
    out = []
    # zero-length segments at the ends may carry the boundary curvature
    a = [curv(p.cs[0])[0]] + [curv(c)[0] for c in drop_zero(p.cs)[:1]]
    b = [curv(p.cs[-1])[1]] + [curv(c)[1] for c in drop_zero(p.cs)[-1:]]
    if not drop_zero(p.cs):
        return 1, []
    for ks, z, n, k in ((a, z0, 'initial', p.env['k1']), (b, z1, 'final', p.env['k2'])):
        if z and min(abs(x) for x in ks) > tol:
            out.append(('%s curvature is zero' % n, '%s curvature %.6g' % (n, ks[-1].real)))
        if not z and min(min(abs(x - K), abs(x + K)) for x in ks) > tol:
            out.append(('%s curvature is plus or minus the maximum' % n, '%s curvature %.6g with maximum %.6g' % (n, ks[-1].real, K.real)))
        elif not z and abs(k.real) > 1e-9 and not any(abs(x - K * sgnr(k)) <= tol for x in ks):
            out.append(('%s curvature has the sign requested by the %s state' % (n, 'start' if n == 'initial' else 'goal'),
                        '%s curvature %.6g although the state asks for the sign of %.3g' % (n, ks[-1].real, k.real)))
    return 2, out

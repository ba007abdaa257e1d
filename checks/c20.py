"""C20: planning between arbitrary boundary curvatures."""
import random
import families, lib, pathprops, surveys, wrappers
from num import NumErr
from paths import sgnr, advance, curv
from wrappers import CLASSES, WRAP, analyse, segs_goal_error, wat, wpoint, wspecial

TOL = 1e-5
R_GOAL = 'the lead-in, the delegated path and the lead-out join up and end in the goal pose'
R_LEN = 'the reported distance is the length of the returned path'
R_RANK = 'a candidate is ranked by the length of the path it produces'
R_CURV = 'curvature is continuous from the lead-in through the delegated path to the lead-out'
R_ENDS = 'the path begins with the start curvature and ends with the goal curvature'
R_LIM = 'lead-in and lead-out respect the curvature and sharpness limits'
R_DIR = 'a forward-only (backward-only) space never drives the other way'
R_SUB = 'the delegated planner promises the boundary curvatures it is used for'
R_PAR = 'the delegated planner has the parameters of the delegating one'


def fit(name, k0, k1, K):
    """boundary curvatures promised by a sub-planner, from its name in the public interface"""
    b = name.split('_')[0][2:]
    z0, z1 = b.startswith('0'), b.endswith('0')
    ok = lambda z, k: abs(k) < TOL * (1 + abs(K)) if z else abs(abs(k) - abs(K)) < TOL * (1 + abs(K))
    return ok(z0, k0) and ok(z1, k1)


def visit(p):
    v = p.env
    K, S = v['kappa'], v['sigma']
    out = []
    tot = sum(((x[1] * sgnr(x[1]) if x[0] == 'c' else x[3]) for x in p.segs), 0j)
    if segs_goal_error(p) > TOL * (10 + abs(tot)):
        out.append((R_GOAL, 'misses by %.3g' % segs_goal_error(p)))
    if abs(tot - p.dist) > TOL * (1 + abs(tot)):
        out.append((R_LEN, 'distance %.9g, path %.9g' % (p.dist.real, tot.real)))
    if p.length is not None and abs(tot - p.length) > TOL * (1 + abs(tot)):
        out.append((R_RANK, 'ranked with %.9g, path %.9g' % (p.length.real, tot.real)))
    tol = TOL * (1 + abs(K))
    k = v['k1']
    d = 0
    R_K = R_ENDS
    for g in p.segs:
        if g[0] == 'c':
            if abs(g[1]) < 1e-9:
                continue
            a, b = curv(g[1:])
            nd = sgnr(g[1])
            if abs(a - k) > tol and not (p.fam == 'hc_rs' and d and nd != d):
                out.append((R_K, 'curvature jumps from %.6g to %.6g' % (k.real, a.real)))
            if max(abs(a.real), abs(b.real)) > abs(K.real) * (1 + 1e-6) + 1e-4 or abs(g[3].real) > abs(S.real) * (1 + 1e-6):
                out.append((R_LIM, 'curvature %.6g to %.6g, sharpness %.6g (limits %.6g, %.6g)' % (a.real, b.real, g[3].real, K.real, S.real)))
            if p.fam != 'hc_rs' and nd != (1 if p.fam.endswith('_f') else -1):
                out.append((R_DIR, 'segment of signed length %.6g' % g[1].real))
            k, d = b, nd
            R_K = R_CURV
        else:
            a = g[2]
            if abs(a[3] - k) > tol:
                out.append((R_K, 'delegated path starts with curvature %.6g after %.6g' % (a[3].real, k.real)))
            if not fit(g[1], a[3], a[7], K):
                out.append((R_SUB, '%s is asked for curvatures %.6g and %.6g (maximum %.6g)' % (g[1], a[3].real, a[7].real, K.real)))
            k, d = a[7], 0
            R_K = R_CURV
    if p.segs and abs(k - v['k2']) > tol:
        out.append((R_ENDS, 'ends with curvature %.6g instead of %.6g' % (k.real, v['k2'].real)))
    return 7, out


def params(q, ref):
    out = []
    n = 0
    for s, cells, kind, oid, off in q.snap:
        r = ref.get(s)
        if r is None:
            raise lib.Broken('no reference for ' + s)
        n += 1
        for o, v in r.items():
            w = cells.get(o)
            if not eqterm(v, w):
                out.append((R_PAR, '%s: field at offset %d holds %s instead of %s' % (s, o, w, v)))
                break
    return n, out


def eqterm(a, b):
    if a is b or a == b:
        return True
    return hasattr(a, 'op') and hasattr(b, 'op') and repr(a) == repr(b)


def task(prog, fam, c1, c2, n, seed, only=None):
    def f():
        from num import Eval
        r = random.Random(seed)
        viol = {}
        cnt = {'obligations': 0, 'candidate paths': 0, 'points of the value graph': 0, 'coinciding predictions examined': 0, 'delegations checked': 0}
        refs, rq = wrappers.reference(prog, fam)

        def rec(rule, what, p):
            viol.setdefault((rule,), []).append((what, p))
        for force, q, ids in wrappers.parts(prog, fam, c1, c2):
            cnt['candidate paths'] += len(ids)

            # parameters of the sub-planners, compared as values at generic points
            for k in range(3):
                env = wpoint(r, c1, c2, 1e-2)
                ev, er = Eval(q.B, env), Eval(rq.B, env)
                for s, cells, kind, oid, off in q.snap:
                    cnt['delegations checked'] += 1
                    cnt['obligations'] += 1
                    for o, v in refs[s].items():
                        w = cells.get(o)
                        try:
                            a = er.val(v) if hasattr(v, 'op') else v
                            b = ev.val(w) if hasattr(w, 'op') else w
                        except NumErr:
                            continue
                        if b is None or abs(a - b) > 1e-9 * (1 + abs(a)):
                            rec(R_PAR, '%s: the field at offset %d differs from a planner constructed with the same parameters' % (s, o), None)
                            break
            pts = [wpoint(r, c1, c2, 1e-2) for k in range(n)]
            if force:
                pts = [e for e in pts if q.region(e)] + [dict(e) for e in r.sample(q.samples, min(len(q.samples), 24))]
            for env in pts:
                cnt['points of the value graph'] += 1
                for i in ids:
                    try:
                        p = wat(q, env, i)
                    except NumErr:
                        continue
                    if p is None:
                        continue
                    o, fl = visit(p)
                    cnt['obligations'] += o
                    for rule, what in fl:
                        rec(rule, what, p)
            for k in range(q.ncalls):
                try:
                    q2, ids2 = analyse(prog, fam, c1, c2, eqk=k, force=force or None)
                except wrappers.Split:
                    continue
                for m in range(max(2, n // 6)):
                    for env in wspecial(r, fam, c1, c2, 1e-3):
                        if force and not q2.region(env):
                            continue
                        for i in ids2:
                            try:
                                p = wat(q2, env, i)
                                if p is None or q2.eqargs is None or not p.ev.coincide():
                                    continue
                            except NumErr:
                                continue
                            if any(x[0] == 'b' for x in p.segs):
                                continue
                            cnt['coinciding predictions examined'] += 1
                            o, fl = visit(p)
                            cnt['obligations'] += o
                            for rule, what in fl:
                                if rule in (R_GOAL, R_LEN, R_RANK, R_LIM, R_CURV, R_ENDS, R_DIR):
                                    rec(rule, what, p)
        out = []
        for (rule,), fl in viol.items():
            if len(fl) < 2 or only and rule not in only:
                continue
            what, p = fl[0]
            tr = []
            if p is not None:
                tr = ['generic point: ' + ', '.join('%s=%.6g' % (a, complex(b).real) for a, b in sorted(p.env.items()) if a not in ('word', 'disc', 'd_in'))]
            out.append((rule, 'planner %s' % fam, 'start curvature %s, goal curvature %s%s: %s' % (
                c1, c2, ', coinciding predictions' if p is not None and p.word else '', what), tr))
        return {'viol': out, 'counts': cnt}
    return f


R_SUBS = 'the delegated planners reach the goal pose with continuous curvature, the promised boundary curvatures and the reported length'


def v_sub(p):
    n, out = 0, []
    for v in (pathprops.v_goal, pathprops.v_length, pathprops.v_continuity, pathprops.v_boundary):
        a, b = v(p)
        n += a
        out += b
    return n, out


def wtasks(prog, rules, n):
    """the clauses of other properties that concern the two planners as well"""
    return [('%s %s/%s' % (f, a, b), task(prog, f, a, b, n, surveys.seed(), rules)) for f in WRAP for a in CLASSES for b in CLASSES]


def run(ctx):
    prog = ctx.prog
    n = 8 if ctx.tier == 'quick' else 40
    tasks = [('%s %s/%s' % (f, a, b), task(prog, f, a, b, n, surveys.seed())) for f in WRAP for a in CLASSES for b in CLASSES]
    surveys.run(ctx, v_sub, [f for f in families.HCCC if f != 'cc00_rs'], n=24, dist=True, rules=[R_SUBS], extra=tasks + [surveys.t_fresnel(prog)])
    for r in (R_GOAL, R_LEN, R_RANK, R_CURV, R_ENDS, R_LIM, R_DIR, R_SUB, R_PAR):
        ctx.rule(r)
    ctx.count('curvature classes', len(CLASSES) ** 2 * len(WRAP))
    ctx.need('candidate paths', 150)
    ctx.need('coinciding predictions examined', 20)
    return surveys.METHOD + ' A call of a sub-planner is one opaque path block.'

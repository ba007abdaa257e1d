"""Candidates that are turned away.  A candidate takes part in the selection under a condition; where that condition fails, the decision
that made it fail is reversed on the value graph and the path the candidate would have produced is looked at: if that path is
admissible (reaches the goal, keeps the limits, is of a kind the candidate is accepted with elsewhere) and shorter than the reported
distance, the decision loses a path."""
import random
import families, lib, paths, relate
from bdd import Node
from num import NumErr
from paths import FRESNEL, PathEval, at, shape
from pathprops import v_boundary, v_bounds, v_continuity, v_direction

RULE = 'no candidate is turned away where its path is admissible and shorter than the reported distance'


def admissible(p, l):
    if p.ev.domain or p.goal_error() > 1e-5:
        return False
    if abs(sum(abs(c[0]) for c in p.cs) - l) > 1e-5 * (1 + l):
        return False
    return not any(v(p)[1] for v in (v_boundary, v_bounds, v_continuity) + ((v_direction,) if p.fam in families.DUB else ()))


def group(q, L, fam, ids, n, seed):
    r = random.Random(seed)
    cnt = {'obligations': 0, 'points of the value graph': 0, 'candidates turned away': 0, 'reversed decisions': 0}
    shapes, sus = {}, []
    for _ in range(n):
        env = relate.relpoint(r, fam)
        cnt['points of the value graph'] += 1
        e = PathEval(q, L, env)
        best = 1e30
        try:
            for i, c in q.exist.items():
                if e.cond(c):
                    best = min(best, e.val(q.cands[i]).real)
        except NumErr:
            continue
        for i in ids:
            c = q.exist[i]
            if e.cond(c):
                try:
                    shapes.setdefault(i, set()).add(shape(at(q, L, env, i, fam, None, False).cs))
                except NumErr:
                    pass
                continue
            cnt['candidates turned away'] += 1
            cnt['obligations'] += 1
            try:
                if e.val(q.cands[i]).real > best - 1e-4 * (1 + best):
                    continue
            except (NumErr, OverflowError, ZeroDivisionError):
                continue
            way, x = [], c
            while type(x) is Node:
                way.append(x.var)
                x = x.hi if e.atom(x.var) else x.lo
            for v in way:
                if not (q.B.info[v][0] in ('lt', 'eq')):
                    continue
                x = reverse(q, L, env, e, v, i, best, fam, cnt)
                if x:
                    sus.append((i, v, env, best, x))
    viol = {}
    rr = random.Random(9)
    for i, v, env, best, (l, s) in sus:
        if s not in shapes.get(i, ()):
            continue
        if not connected(q, L, env, v, i, s, fam):
            continue
        lo = q.B.info[v][3]
        wh = '%s:%d (%s)' % (lib.short(lo[0]), lo[1], q.prog.short(lo[2]).split('(')[0]) if lo else 'planner ' + fam
        viol.setdefault((wh, s), (RULE, wh, '%s: a path %s of length %.6g is turned away, the reported distance is %.6g' % (fam, s, l, best), relate.where(env)))
    return {'counts': cnt, 'viol': list(viol.values())}


def forced(q, L, env, v, val):
    f = PathEval(q, L, env)
    f.vmemo[v] = val
    return f


def path_if(q, L, env, f, i, fam):
    """the path of candidate i under a forced decision: (length, shape), if admissible"""
    try:
        if not f.cond(q.exist[i]):
            return None
        l = f.val(q.cands[i]).real
        if f.domain:
            return None
        p = at(q, L, env, i, fam, f, False)
        if p is not None and admissible(p, l):
            return l, shape(p.cs)
    except (NumErr, OverflowError, ZeroDivisionError):
        pass
    return None


def reverse(q, L, env, e, v, i, best, fam, cnt):
    f = forced(q, L, env, v, not e.atom(v))
    if not f.cond(q.exist[i]):
        return None
    cnt['reversed decisions'] += 1
    x = path_if(q, L, env, f, i, fam)
    return x if x and x[0] < best - 1e-4 * (1 + best) else None


def connected(q, L, env, v, i, s, fam):
    """the goal is moved to where the decision goes the other way by itself: the path has to stay admissible and of the same kind
    all the way, and the candidate has to be accepted there.  (Formulas of a candidate may by accident describe another path far from
    the region the candidate is meant for.)"""
    kind, x, y, _ = q.B.info[v]

    def diff(en):
        f = PathEval(q, L, en)
        return (f.val(x) - f.val(y)).real
    want = not PathEval(q, L, env).atom(v)
    cur = dict(env)
    try:
        g0 = diff(cur)
        if kind == 'lt' and abs(g0) < 1e-6:
            return False        # on the border itself rounding decides
        N = 10
        goal = -0.05 * g0 if kind == 'lt' else 0.0
        for k in range(1, 4 * N):
            g = diff(cur)
            if PathEval(q, L, cur).atom(v) == want:
                z = path_if(q, L, cur, PathEval(q, L, cur), i, fam)
                return z is not None and z[1] == s
            grad = {}
            for n in ('x2', 'y2', 'th2'):
                c2 = dict(cur)
                c2[n] = cur[n] + 1e-6
                grad[n] = (diff(c2) - g) / 1e-6
            m = sum(t * t for t in grad.values())
            if m < 1e-12:
                return False
            need = max(min((goal - g0) / N, abs(g0)), -abs(g0))
            for n in grad:
                cur[n] = cur[n] + need * grad[n] / m
            f = forced(q, L, cur, v, want)
            z = path_if(q, L, cur, f, i, fam)
            if z is None or z[1] != s:
                return False
    except (NumErr, OverflowError, ZeroDivisionError):
        pass
    return False


def survey(prog, fam, n, seed, leaves, nproc=3):
    q = families.pass1(prog, fam, 'ctl_', stubs=FRESNEL)
    out = []

    def task(ids):
        def f():
            q.run('ctl_' + fam, q.scenarios(ids))
            return group(q, leaves, fam, ids, n, seed)
        return f
    gs = families.groups(q)
    if len(gs) == 1:
        out.append(task(gs[0])())
    else:
        lib.fan([('%s/%d' % (fam, i), task(g)) for i, g in enumerate(gs)], lambda _, r: out.append(r), nproc)
    return families.merge(out)

"""Dubins and Reeds-Shepp: the candidate selection works on gated sums, so candidates are singled out on the value graph:
every comparison that takes part in the selection is re-decided as if one of the compared lengths were the smallest."""
import random
import lib, paths
from bdd import Node
from num import Eval, NumErr, same
from paths import FRESNEL, HOOKS, Path, end_pose, point, sgnr, shape, PI
from query import Q
from terms import T, BIG

FAMS = ['dubins_f', 'dubins_b', 'rs']
MINCAND = {'dubins_f': 6, 'dubins_b': 6, 'rs': 40}


class G(Q):
    def __init__(self, prog, fam, drivers=None):
        Q.__init__(self, prog, stubs=FRESNEL, partition=False, turns=False)
        self.fam = fam
        for d in drivers or ('ctl_' + fam, 'dst_' + fam):
            self.run(d)
        if self.I.unmodelled:
            raise lib.Broken('%s calls %s' % (fam, sorted(self.I.unmodelled)))
        self.selatoms()

    def selatoms(self):
        """comparisons whose operands are lengths of competing candidates: one operand is the running minimum, which starts
        as 'no path yet' (infinite) or depends on an earlier comparison of that kind"""
        B = self.B
        self.sel = set()
        tm, cm = {}, {}

        def cdep(c):
            """does a gate depend on a selection comparison"""
            st, seen = [c], set()
            while st:
                n = st.pop()
                if type(n) is not Node or n.uid in seen:
                    continue
                seen.add(n.uid)
                if n.var in self.sel:
                    return True
                st += [n.hi, n.lo]
            return False

        def big(t):
            r = tm.get(t.uid)
            if r is None:
                tm[t.uid] = False
                if t.op == 'c':
                    r = abs(t.args[0]) >= BIG
                elif t.op == 'sel':
                    r = big(t.args[1]) or big(t.args[2]) or cdep(t.args[0])
                else:
                    r = t.op in ('+', '-', 'fabs') and any(big(a) for a in t.args)
                tm[t.uid] = r
            return r
        order = sorted((v for v, i in enumerate(B.info) if i[0] in ('lt', 'eq')))
        for v in order:
            _, x, y, loc = B.info[v]
            if x.op == 'c' or y.op == 'c':
                continue
            if big(x) or big(y):
                self.sel.add(v)
                tm.clear()
        self.pairs = []
        self.pairof = {}
        self.where = []
        idx = {}
        for v in order:
            if v in self.sel:
                _, x, y, loc = B.info[v]
                k = (min(x.uid, y.uid), max(x.uid, y.uid))
                if k not in idx:
                    idx[k] = len(self.pairs)
                    self.pairs.append((x, y))
                    self.where.append(loc)
                self.pairof[v] = idx[k]


class GSteer(paths.Steer):
    """paths.Steer for the whole query: the decisions are those that the shortest path depends on"""
    SHARE = 9000

    def __init__(self, q, fam, part):
        paths.Steer.__init__(self, q, None, fam)
        self.part = part
        self.names = tuple(n for n in paths.STEER if n != 'sigma')

    def trace(self, env, i):
        self.evals += 1
        e = GEval(self.q, env)
        e.trace = {}
        try:
            e.result()
        except (NumErr, OverflowError, ZeroDivisionError):
            return None
        return {k: d for k, d in e.trace.items() if k % self.part[1] == self.part[0]}


class GEval(Eval):
    """force: {pair index: +1 (first operand is shorter) / -1}"""

    def __init__(self, q, env, force=None):
        Eval.__init__(self, q.B, env, None, HOOKS)
        self.q = q
        self.force = force or {}

    def ops(self, k):
        x, y = self.q.pairs[k]
        try:
            return self.val(x), self.val(y)
        except NumErr as e:
            self.poison.append((k, str(e)))
            return None

    def atom(self, v):
        k = self.q.pairof.get(v)
        if k is None:
            return Eval.atom(self, v)
        r = self.vmemo.get(v)
        if r is None:
            kind, x, y, loc = self.B.info[v]
            f = self.force.get(k)
            if f is None:
                ab = self.ops(k)
                a, b = ab if ab else (0j, 0j)
                d = 0 if same(a, b, 1e-12) else (a - b).real
                if d and x is not self.q.pairs[k][0]:
                    d = -d
                if d:
                    self.near = min(self.near, abs(d))
            else:
                d = -f if x is self.q.pairs[k][0] else f
            r = d < 0 if kind == 'lt' else d == 0
            self.vmemo[v] = r
        return r

    def result(self):
        return [(self.val(ds), self.val(k), self.val(s)) for pc, ds, k, s in self.q.ctrls if self.cond(pc)], self.double('distance')

    def double(self, name):
        for pc, t in self.q.doubles.get(name, ()):
            if self.cond(pc):
                return self.val(t)
        raise NumErr('no value ' + name)


def special(r, kind, fwd, im):
    e = point(r, im)
    K = e['kappa']
    d = fwd if fwd is not None else r.choice([-1, 1])
    s = r.choice([-1, 1])
    arc = lambda s, d: (d * r.uniform(0.2, 2.5) / K, s * K, 0j)
    st = lambda: (d * r.uniform(0.3, 4) + 0j, 0j, 0j)
    cs = {'E': lambda: [], 'S': lambda: [st()], 'T': lambda: [arc(s, d)], 'TT': lambda: [arc(s, d), arc(-s, d)],
          'TcT': lambda: [arc(s, d), arc(-s, -d)], 'TS': lambda: [arc(s, d), st()], 'ST': lambda: [st(), arc(s, d)]}[kind]()
    e['x2'], e['y2'], e['th2'] = end_pose((e['x1'], e['y1'], e['th1']), cs)
    e['word'] = kind
    return e


def points(fam, n, seed, im):
    r = random.Random(seed)
    fwd = 1 if fam.endswith('_f') else -1 if fam.endswith('_b') else None
    for k in range(n):
        yield point(r, im)
        if k % 3 == 0:
            yield point(r, im * 1e-2, True)
    for k in range(max(n // 10, 4)):
        for kd in ('E', 'S', 'T', 'TT', 'TcT', 'TS', 'ST'):
            if kd == 'TcT' and fwd is not None:
                continue
            yield special(r, kd, fwd, im * 0.1)


def total(cs):
    return sum((c[0] * sgnr(c[0]) for c in cs), 0j)


def outcomes(q, env, k, nat):
    """the two evaluations in which the first / second side of selection comparison k is the shorter one and its path stays
    the shortest in everything that follows.  Returns (evaluation, evaluation, does the outcome matter)"""
    ab = nat.ops(k)
    al = [w for w in range(k, len(q.pairs)) if w == k or alias(ab, nat.ops(w))]
    e = [GEval(q, env), GEval(q, env)]
    eff = False
    for w in al:
        e[0].force[w] = 1
        e[1].force[w] = -1
    for w in range(k + 1, len(q.pairs)):
        if w in al:
            continue
        a, b = e[0].ops(w), e[1].ops(w)
        if a is None or b is None:
            continue
        cx, cy = not same(a[0], b[0], 1e-12), not same(a[1], b[1], 1e-12)
        if cx != cy:
            eff = True
            e[0].force[w] = e[1].force[w] = 1 if cx else -1
    return e[0], e[1], eff


def alias(ab, cd):
    """the same comparison, made once for the controls and once for the distance"""
    return cd is not None and same(ab[0], cd[0], 1e-12) and same(ab[1], cd[1], 1e-12)


def variants(q, env):
    """the candidates that exist at a point, and for every effective selection comparison its operands and two outcomes"""
    nat = GEval(q, env)
    cs, d = nat.result()
    out = [mkpath(q, env, nat, cs, d)]
    cmps = []
    for k in range(len(q.pairs)):
        ab = nat.ops(k)
        if ab is None or max(abs(ab[0]), abs(ab[1])) > 1e9:
            continue
        res = []
        e0, e1, eff = outcomes(q, env, k, nat)
        for e in (e0, e1):
            cs, d = e.result()
            e.near = nat.near
            res.append(mkpath(q, env, e, cs, d))
        if not eff and close(res[0].cs, res[1].cs):
            continue
        cmps.append((k, ab, res))
        for p in res:
            if not any(close(p.cs, o.cs) for o in out):
                out.append(p)
    return out, cmps


def close(a, b):
    return len(a) == len(b) and all(same(x, y, 1e-9) for c, d in zip(a, b) for x, y in zip(c, d))


def mkpath(q, env, e, cs, dist):
    p = Path()
    p.fam, p.cand, p.env, p.q, p.ev = q.fam, None, env, q, e
    p.word = env.get('word')
    p.cs, p.dist = cs, dist
    p.length = None
    return p


def v_ranking(p0, cmps):
    """the two sides of a selection comparison differ by what the lengths of their paths differ by"""
    out = []
    K = p0.env['kappa']
    for k, (a, b), (pa, pb) in cmps:
        d, t = a - b, total(pa.cs) - total(pb.cs)
        if close(pa.cs, pb.cs):
            t = pa.dist - pb.dist        # a comparison made for the distance only
        if not same(d, t * K, 1e-6) and not same(d, t, 1e-6):
            out.append((k, 'candidates are compared by the lengths of their paths',
                        'path %s is compared with path %s as if their lengths differed by %.6g, they differ by %.6g' % (
                            shape(pa.cs), shape(pb.cs), (d / K).real, t.real)))
    return len(cmps), out


def survey(prog, fam, visit, n=60, seed=1, im=1e-2, ranking=False, nproc=4, **kw):
    q = G(prog, fam)
    pts = list(points(fam, n, seed, im))
    out = []
    if fam != 'rs':
        nproc = 1

    def task(sub, part):
        return lambda: chunk(q, fam, visit, sub, ranking, part)
    if nproc == 1:
        out.append(task(pts, (0, 1))())
    else:
        lib.fan([('%s/%d' % (fam, i), task(pts[i::nproc], (i, nproc))) for i in range(nproc)], lambda _, r: out.append(r), nproc)
    fails, words, samples, cnt = {}, {}, [], {}
    for r in out:
        for k, v in r[0].items():
            fails.setdefault(k, []).extend(v)
        for k, v in r[1].items():
            words[k] = words.get(k, 0) + v
        samples += r[2][:1]
        for k, v in r[3].items():
            cnt[k] = cnt.get(k, 0) + v
    viol = []
    for (rule, w), fl in sorted(fails.items(), key=lambda x: x[0]):
        if len(fl) < 2:
            continue
        what, wh, env = fl[0]
        viol.append((rule, wh, '%s: path %s: %s' % (fam, w, what),
                     ['generic point: ' + ', '.join('%s=%.6g' % (k, complex(v).real) for k, v in sorted(env.items()) if k not in ('word', 'disc', 'd_in'))]))
    if len(words) < MINCAND[fam]:
        raise lib.Broken('%s: only %d words recognised in the selection' % (fam, len(words)))
    cnt['candidate paths'] = cnt['candidate paths with a generic point'] = len(words)
    return {'viol': viol, 'samples': samples, 'words': words, 'counts': cnt}


def chunk(q, fam, visit, pts, ranking, part):
    fails, words, samples = {}, {}, []
    nobl = skipped = 0
    st = GSteer(q, fam, part)
    seeds = [{k: complex(v.real) for k, v in x.items()} for x in pts if 'word' not in x]
    steered = list(st.points(None, seeds[:30]))
    for env in pts + steered:
        try:
            ps, cmps = variants(q, env)
        except NumErr as x:
            skipped += 1
            continue
        if ps[0].word is None and ps[0].ev.near < 1e-7:
            skipped += 1
            continue
        for p in ps if visit else ():
            w = shape(p.cs)
            res = visit(p)
            words[w] = words.get(w, 0) + 1
            nobl += res[0]
            if len(samples) < 2 and p.word is None:
                samples.append({'space': fam, 'word': w, 'length': str(p.dist)})
            for rule, what in res[1]:
                fails.setdefault((rule, w if p.word is None else '*' + p.word), []).append((what, 'planner ' + fam, p.env))
        if ranking and ps[0].word is None:
            n, o = v_ranking(ps[0], cmps)
            nobl += n
            for k, rule, what in o:
                lo = q.where[k]
                fails.setdefault((rule, 'comparison %d' % k), []).append((what, '%s:%d' % (lib.short(lo[0]), lo[1]) if lo else 'planner ' + fam, ps[0].env))
    return fails, words, samples, {'obligations': nobl, 'points of the value graph': len(pts) + len(steered), 'points moved to the border of a decision': len(steered), 'points skipped (ill-conditioned)': skipped}

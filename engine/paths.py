"""Paths as values: evaluation of the gated value graph of a query, candidate by candidate.

`Leaf` is the graph of one building block (a turn on a circle, a straight segment), obtained from its own source.  A query
graph refers to blocks as uninterpreted nodes; `PathEval` composes both graphs.  Evaluation is random interpretation:
at generic points of the input domain (with generic imaginary parts) two expressions agree iff they are the same function
on that branch.  Nothing of the library is executed."""
import cmath, math, random
import families, lib
from bdd import Node
from num import Eval, NumErr, PI
from query import Q, CF, QF
from interp import U

GL = [(-0.9739065285171717, 0.06667134430868814), (-0.8650633666889845, 0.1494513491505806), (-0.6794095682990244, 0.219086362515982),
      (-0.4333953941292472, 0.2692667193099963), (-0.1488743389816312, 0.2955242247147529)]
GL = GL + [(-a, w) for a, w in GL]


def quad(f, a, b, n):
    h = (b - a) / n
    s = 0
    for i in range(n):
        m = a + h * (i + 0.5)
        for x, w in GL:
            s += w * f(m + 0.5 * h * x)
    return s * h / 2


_fc = {}


def fresnel_val(z):
    """(S, C) of the normalised Fresnel integrals, at a complex argument"""
    k = z
    r = _fc.get(k)
    if r is None:
        n = 4 + int(3 * abs(z) * abs(z))
        g = lambda t: 0.5 * PI * (z * t) ** 2
        r = z * quad(lambda t: cmath.sin(g(t)), 0, 1, n), z * quad(lambda t: cmath.cos(g(t)), 0, 1, n)
        _fc[k] = r
    return r


HOOKS = {'fresnel_s': lambda e, t: fresnel_val(e.val(t.args[0]))[0], 'fresnel_c': lambda e, t: fresnel_val(e.val(t.args[0]))[1]}


def s_fresnel(I, name, args, ins, pc):
    for p, op in ((args[1], 'fresnel_s'), (args[2], 'fresnel_c')):
        I.store(p, I.t.mk(op, I.as_double(args[0])), 8, pc)
    return U('x')


FRESNEL = {'steering::fresnel': s_fresnel}


class Lazy(dict):
    def __init__(self, ev, names, args):
        dict.__init__(self)
        self.ev = ev
        self.src = dict(zip(names, args))

    def get(self, k, d=None):
        if k in self:
            return self[k]
        t = self.src.get(k)
        if t is None:
            return d
        v = self[k] = self.ev.val(t)
        return v


class Leaf:
    """value graph of one building block"""
    names = {}

    def __init__(self, prog, drv, names):
        self.q = Q(prog, stubs=FRESNEL, partition=False, turns=False)
        self.q.run(drv)
        self.drv = drv
        self.names = names
        if self.q.I.unmodelled:
            raise lib.Broken('%s calls %s' % (drv, sorted(self.q.I.unmodelled)))

    def eval(self, ev, args, order=1):
        env = Lazy(ev, self.names, args)
        inv = {v: k for k, v in self.q.bools.items()}

        def scen(v, info):
            n = inv[v]
            if n == 'order':
                return order
            return abs(env.get(n)) > 0.5
        e = Eval(self.q.B, env, scen, HOOKS)
        if ev.trace is not None:
            e.trace = {}
        return e

    def log(self, ev, e, kind):
        ev.near = min(ev.near, e.near)
        if ev.trace is not None:
            n = ev.trace['n'] = ev.trace.get('n', 0) + 1
            for v, d in e.trace.items():
                ev.trace[(self, kind, n, v)] = d

    def length(self, ev, args):
        e = self.eval(ev, args)
        for pc, t in self.q.doubles['length']:
            if e.cond(pc):
                r = e.val(t)
                self.log(ev, e, 'len')
                return r
        raise NumErr('no length')

    def controls(self, ev, args, order=1):
        e = self.eval(ev, args, order)
        out = []
        for pc, ds, k, s in self.q.ctrls:
            if e.cond(pc):
                out.append((e.val(ds), e.val(k), e.val(s)))
        self.log(ev, e, 'blk')
        return out


TN = ['xc', 'yc', 'radius', 'mu', 'sin_mu', 'cos_mu', 'delta_min', 'kappa', 'kappa_inv', 'sigma', 'sx', 'sy', 'sth', 'sk',
      'left', 'forward', 'regular', 'qx', 'qy', 'qth', 'qk']
SN = ['x1', 'y1', 'th1', 'k1', 'x2', 'y2', 'th2', 'k2']


class Leaves:
    def __init__(self, prog):
        self.turn = {k: Leaf(prog, 'drv_turn_' + k, TN) for k in ('rs', 'hc', 'cc')}
        self.straight = Leaf(prog, 'drv_straight', SN)
        self.empty = Leaf(prog, 'drv_empty', [])

    def hooks(self):
        h = dict(HOOKS)
        for k in self.turn:
            h['len_' + k] = lambda e, t, k=k: self.turn[k].length(e, t.args)
        return h

    def block(self, e, t):
        """controls of a block node"""
        if t.op == 'blk_s':
            return self.straight.controls(e, t.args)
        if t.op == 'blk_e':
            return self.empty.controls(e, t.args)
        k = t.op[4:]
        return self.turn[k].controls(e, t.args[1:], int(e.val(t.args[0]).real))


class PathEval(Eval):
    def __init__(self, q, leaves, env):
        Eval.__init__(self, q.B, env, self.scenario, leaves.hooks() if leaves else HOOKS)
        self.q = q
        self.leaves = leaves
        self.sc = 0

    def scenario(self, v, info):
        if info[0] == 's':
            return (self.sc >> info[3]) & 1
        raise NumErr('free variable %r' % (info[0],))

    def select(self, cand):
        """look at the partition where candidate `cand` wins"""
        self.sc = self.q.favs[cand]
        # conditions on scenario bits are re-decided; values whose gates mention scenario bits are dropped
        for v in self.q.sb:
            self.vmemo.pop(v, None)
        self.memo = self.base.copy() if hasattr(self, 'base') else {}

    def leaf(self, t):
        while t.op == 'sel':
            t = t.args[1] if self.cond(t.args[0]) else t.args[2]
        return t

    def controls(self, recs):
        out = []
        for pc, ds, k, s in recs:
            if not self.cond(pc):
                continue
            b = self.leaf(k)
            if b.op.startswith('blk_') and not b.op.startswith('blk_sub'):
                out += self.leaves.block(self, b)
            else:
                out.append((self.val(ds), self.val(k), self.val(s)))
        return out

    def double(self, name):
        for pc, t in self.q.doubles.get(name, ()):
            if self.cond(pc):
                return self.val(t)
        raise NumErr('no value ' + name)


# ---- the meaning of a path
def sgnr(z):
    return 1 if z.real > 0 else -1 if z.real < 0 else 0


def advance(st, c):
    """exact end pose of a control (delta_s, kappa, sigma) from (x, y, theta); curvature kappa + sigma*s along |s|"""
    x, y, th = st
    ds, k, s = c
    d = sgnr(ds)
    L = ds * d
    if d == 0:
        return st
    if abs(s) < 1e-14 and abs(k) < 1e-14:
        return x + ds * cmath.cos(th), y + ds * cmath.sin(th), th
    if abs(s) < 1e-14:
        t2 = th + d * k * L
        return x + (cmath.sin(t2) - cmath.sin(th)) / k, y + (cmath.cos(th) - cmath.cos(t2)) / k, t2
    a = lambda u: th + d * (k * u + 0.5 * s * u * u)
    n = 3 + int(abs(k * L) + abs(s * L * L))
    dx = d * quad(lambda u: cmath.cos(a(u)), 0, L, n)
    dy = d * quad(lambda u: cmath.sin(a(u)), 0, L, n)
    return x + dx, y + dy, a(L)


def end_pose(st, cs):
    for c in cs:
        st = advance(st, c)
    return st


def curv(c):
    """curvature at the beginning and the end of a control, along the direction of travel bookkeeping of the library"""
    ds, k, s = c
    return k, k + s * ds * sgnr(ds)


def drop_zero(cs, tol=1e-9):
    return [c for c in cs if abs(c[0]) > tol]


# ---- points
def point(r, im=0.0, wide=False):
    f = lambda v: complex(v, im * r.uniform(-1, 1))
    R = r.choice([0.5, 1.5, 3, 5, 8])
    e = {}
    if wide:
        e['kappa'] = f(math.exp(r.uniform(-1.2, 1.2)))
        e['sigma'] = f(math.exp(r.uniform(-2, 2)))
        R = R / e['kappa'].real
    else:
        e['kappa'] = f(r.uniform(0.6, 1.6))
        e['sigma'] = f(r.uniform(0.5, 2.0))
    e['disc'] = f(0.1)
    for n in ('x1', 'y1'):
        e[n] = f(r.uniform(-2, 2))
    for n in ('th1', 'th2'):
        e[n] = f(r.uniform(-PI, PI) if r.random() < 0.7 else r.uniform(-15, 15))
    a, d = r.uniform(0, 2 * PI), R * math.sqrt(r.uniform(0, 1))
    e['x2'] = e['x1'] + f(d * math.cos(a))
    e['y2'] = e['y1'] + f(d * math.sin(a))
    for n in ('k1', 'k2'):
        e[n] = f(r.uniform(-0.5, 0.5)) if r.random() < 0.8 else 0j
    e['d_in'] = complex(0)
    return e


# ---- goals that lie exactly on the degenerate families (coinciding or tangent circles, aligned poses, equal poses)
def turn(r, e, k0, k1, arc=None):
    """clothoid from curvature 0 or +-kappa to kappa, arc, clothoid to 0: k0/k1 say whether the turn begins/ends with
    zero curvature"""
    s = r.choice([-1, 1])
    d = r.choice([-1, 1])
    return turn_sd(r, e, k0, k1, s, d, arc)


def turn_sd(r, e, k0, k1, s, d, arc=None):
    K, S = e['kappa'], e['sigma']
    L = K / S
    a = (arc if arc is not None else r.uniform(0.2, 2.5)) / K
    cs = []
    if k0:
        cs.append((d * L, 0j, s * S))
    cs.append((d * a, s * K, 0j))
    if k1:
        cs.append((d * L, s * K, -s * S))
    return cs


def special(r, kind, z0, z1, fwd=None, im=0.0):
    """point whose goal is reached by a degenerate word.  z0/z1: the path begins/ends with zero curvature"""
    e = point(r, im)
    d = fwd if fwd is not None else r.choice([-1, 1])
    if kind == 'E':
        cs = []
    elif kind == 'S':
        cs = [(d * r.uniform(0.3, 4) * e['kappa'] / e['kappa'], 0j, 0j)]
    elif kind == 'T':
        cs = turn_sd(r, e, z0, z1, r.choice([-1, 1]), d)
    elif kind == 'TT':
        s = r.choice([-1, 1])
        cs = turn_sd(r, e, z0, True, s, d) + turn_sd(r, e, True, z1, -s, d)
    elif kind == 'TcT':
        s = r.choice([-1, 1])
        cs = turn_sd(r, e, z0, False, s, d) + turn_sd(r, e, False, z1, -s, -d)
    elif kind == 'TST':
        s, s2 = r.choice([-1, 1]), r.choice([-1, 1])
        cs = turn_sd(r, e, z0, True, s, d) + [(d * r.uniform(0.2, 3), 0j, 0j)] + turn_sd(r, e, True, z1, s2, d)
    e['x2'], e['y2'], e['th2'] = end_pose((e['x1'], e['y1'], e['th1']), cs)
    # the sign of a boundary curvature selects the side; 0 leaves it open
    for n, k in (('k1', cs[0][1] if cs else 0j), ('k2', curv(cs[-1])[1] if cs else 0j)):
        e[n] = r.choice([0j, 0.3 * k, k]) if abs(k) > 1e-9 else r.choice([0j, 0.3 * e['kappa'], -e['kappa']])
    e['word'] = kind
    return e


def ends(fam):
    """does a path of this family begin / end with zero curvature"""
    b = fam.split('_')[0][2:]
    if b == '':
        return True, True
    return b.startswith('0'), b.endswith('0') if not b.endswith('pm0') else True


def points(fam, n, seed, im):
    r = random.Random(seed)
    z0, z1 = ends(fam) if fam in families.HCCC else (True, True)
    fwd = 1 if fam.endswith('_f') else -1 if fam.endswith('_b') else None
    kinds = ['E', 'S', 'T', 'TT', 'TcT', 'TST']
    for k in range(n):
        yield point(r, im)
        if k % 3 == 0:
            yield point(r, im * 1e-2, True)
    for k in range(max(n // 10, 4)):
        for kd in kinds:
            if kd == 'TcT' and fwd is not None:
                continue
            yield special(r, kd, z0, z1, fwd, im * 0.1)


class Path:
    """one candidate of one family at one generic point of its region of existence"""
    __slots__ = ('fam', 'cand', 'env', 'word', 'cs', 'length', 'dist', 'ev', 'q')

    def goal_error(self):
        v = self.env
        x, y, th = end_pose((v['x1'], v['y1'], v['th1']), self.cs)
        d = th - v['th2']
        d -= 2 * PI * round(d.real / (2 * PI))
        return max(abs(x - v['x2']), abs(y - v['y2']), abs(d))


def at(q, L, env, i, fam, e=None, dist=True):
    """the path of candidate i at a point, or None where it does not exist"""
    e = e or PathEval(q, L, env)
    e.select(i)
    if not e.cond(q.exist[i]):
        return None
    p = Path()
    p.fam, p.cand, p.env, p.q, p.ev = fam, i, env, q, e
    p.word = env.get('word')
    p.cs = e.controls(q.ctrls)
    p.length = e.val(q.cands[i])
    p.dist = e.double('distance') if dist else None
    return p


def perturb(env, r):
    return {k: v * (1 + 1e-5 * r.uniform(-1, 1)) if k not in ('word',) else v for k, v in env.items()}


def sites(p):
    """source locations at which the blocks of the path are emitted"""
    out = []
    p.ev.select(p.cand)
    for pc, ds, k, s in p.q.ctrls:
        if p.ev.cond(pc):
            o = p.q.origin.get(p.ev.leaf(k).uid)
            if o:
                out.append(o)
    return out


def shape(cs):
    """readable word: turning direction and driving direction of every segment"""
    out = []
    for ds, k, s in cs:
        if abs(ds) < 1e-9:
            continue
        m = k + 0.5 * s * ds * sgnr(ds)
        w = ('S' if abs(m) < 1e-12 else 'L' if m.real > 0 else 'R') + ('+' if ds.real > 0 else '-')
        if not out or out[-1] != w:
            out.append(w)
    return ' '.join(out) or 'E'


STEER = ('x2', 'y2', 'th2', 'kappa', 'sigma')
BUDGET = 12000  # evaluations of the graph per group of candidates


class Steer:
    """moves points across the decisions a path depends on, so that both sides of every decision are looked at near its border"""
    SHARE = 1100    # evaluations of the graph per candidate
    names = STEER

    def __init__(self, q, L, fam):
        self.q, self.L, self.fam = q, L, fam
        self.evals = 0
        self.dead = {}
        self.done = {}

    def trace(self, env, i):
        self.evals += 1
        e = PathEval(self.q, self.L, env)
        e.trace = {}
        try:
            if at(self.q, self.L, env, i, self.fam, e, False) is None:
                return None
        except (NumErr, OverflowError, ZeroDivisionError):
            return None
        return e.trace

    def loc(self, k):
        info = (k[0].q if type(k) is tuple else self.q).B.info[k[3] if type(k) is tuple else k]
        lo = info[3]
        return (k[0].drv, k[1]) if type(k) is tuple else None, lo[:2] if lo else None, info[0]

    def cross(self, env, i, k, aim):
        """a point where decision k has margin near aim"""
        cur = dict(env)
        t = self.trace(cur, i)
        if t is None or k not in t:
            return None
        g = t[k]
        for _ in range(9):
            if abs(g - aim) < 0.4 * abs(aim):
                return cur
            grad = {}
            for n in self.names:
                c2 = dict(cur)
                c2[n] = cur[n] + 1e-6
                t2 = self.trace(c2, i)
                if t2 is None or k not in t2:
                    return None
                grad[n] = (t2[k] - g) / 1e-6
                if not abs(grad[n]) < 1e4:
                    return None
            m = sum(z * z for z in grad.values())
            if m < 1e-10:
                return None
            f = 1.0
            for _ in range(5):
                c2 = {n: cur[n] for n in cur}
                st = (aim - g) / m
                big = max(abs(st * z) for z in grad.values())
                h = f * min(1.0, 0.7 / big if big > 0 else 1.0)
                for n in self.names:
                    c2[n] = cur[n] + h * st * grad[n]
                t2 = self.trace(c2, i) if c2['kappa'].real > 0.05 and c2['sigma'].real > 0.05 else None
                if t2 is not None and k in t2:
                    break
                f *= 0.4
            else:
                return None
            cur, g = c2, t2[k]
        return None

    def points(self, i, seeds):
        seen = {}
        stop = min(self.evals + self.SHARE, BUDGET)
        for env in seeds:
            t = self.trace(env, i)
            for k, d in (t or {}).items():
                if k != 'n':
                    seen.setdefault(k, []).append((abs(d), d < 0, env))
        order = sorted(seen, key=lambda k: (len({x[1] for x in seen[k]}) > 1, str(self.loc(k)), k if type(k) is int else k[2:]))
        for k in order:
            lo = self.loc(k)
            if lo[2] != 'lt' or self.dead.get(lo, 0) >= 4:
                continue
            two = len({x[1] for x in seen[k]}) > 1
            if two and self.done.get(lo, 0) >= 3:
                continue
            for side in (-1, 1):
                if self.evals > stop:
                    return
                c = [x for x in seen[k] if x[1] == (side > 0)] or seen[k]
                env = min(c, key=lambda x: x[0])[2]
                r = self.cross(env, i, k, side * 3e-3)
                if r is None:
                    if not two:
                        self.dead[lo] = self.dead.get(lo, 0) + 1
                    continue
                self.done[lo] = self.done.get(lo, 0) + 1
                yield r


class Place:
    """looks for a point of the region of existence of a candidate that no generic point has hit: repairs the decisions that keep a point out"""
    PER = 24

    def __init__(self, q, L):
        self.q, self.L = q, L
        self.evals = 0

    def wrong(self, env, j):
        """(cost, [(decision, wanted sign)]) of the cheapest way through the condition of existence"""
        self.evals += 1
        e = PathEval(self.q, self.L, env)
        e.trace = {}
        memo = {}
        info = self.q.B.info

        def go(c):
            if type(c) is not Node:
                return (0.0, None) if c else (1e9, None)
            r = memo.get(id(c))
            if r is None:
                v = c.var
                try:
                    now = e.atom(v)
                except NumErr:
                    now = None
                d = e.trace.get(v)
                hi, lo = go(c.hi), go(c.lo)
                if now is None or d is None or info[v][0] != 'lt':
                    r = (hi if now else lo)[0], (None, hi if now else lo)
                else:
                    pen = min(abs(d), 3.0) + 0.05
                    a, b = (hi, lo) if now else (lo, hi)
                    r = (a[0], (None, a)) if a[0] <= b[0] + pen else (b[0] + pen, ((v, 1 if now else -1), b))
                memo[id(c)] = r
            return r
        cost, ch = go(self.q.exist[j])
        out = []
        while ch is not None:
            if ch[0] is not None:
                out.append(ch[0])
            ch = ch[1][1]
        return cost, out, e.trace

    def find(self, j, starts):
        for env in self.finds(j, starts):
            return env

    def finds(self, j, starts):
        try:
            rated = sorted(((self.wrong(x, j)[0], k) for k, x in enumerate(starts)))
        except RecursionError:
            return
        for cost, k in rated[:self.PER]:
            if cost > 1e8:
                return
            cur = dict(starts[k])
            for _ in range(10):
                cost, w, tr = self.wrong(cur, j)
                if not w:
                    if cost < 1e8:
                        yield cur
                    break
                w = w[:4]
                rows = []
                for n in STEER:
                    c2 = dict(cur)
                    c2[n] = cur[n] + 1e-6
                    t2 = self.wrong(c2, j)[2]
                    rows.append([(t2.get(v, tr[v]) - tr[v]) / 1e-6 for v, _ in w])
                want = [sg * 3e-3 - tr[v] for v, sg in w]
                # minimum-norm step: (J J^T) z = want, step = J^T z
                m = [[sum(rows[a][i] * rows[a][k2] for a in range(len(STEER))) + (1e-9 if i == k2 else 0) for k2 in range(len(w))] + [want[i]] for i in range(len(w))]
                z = solve(m)
                if z is None:
                    break
                st = [sum(rows[a][i] * z[i] for i in range(len(w))) for a in range(len(STEER))]
                big = max(abs(x) for x in st)
                if not 0 < big < 1e6:
                    break
                h = min(1.0, 0.7 / big)
                for n, x in zip(STEER, st):
                    cur[n] = cur[n] + h * x
                if not (cur['kappa'].real > 0.05 and cur['sigma'].real > 0.05):
                    break


def solve(m):
    n = len(m)
    for i in range(n):
        p = max(range(i, n), key=lambda k: abs(m[k][i]))
        if abs(m[p][i]) < 1e-14:
            return None
        m[i], m[p] = m[p], m[i]
        for k in range(n):
            if k != i:
                f = m[k][i] / m[i][i]
                m[k] = [a - f * b for a, b in zip(m[k], m[i])]
    return [m[i][n] / m[i][i] for i in range(n)]


def survey_group(q, L, fam, ids, visit, n, seed, im, dist):
    fails = {}
    hit = {}
    cnt = {'skipped': 0, 'points': 0, 'obligations': 0, 'steered': 0, 'placed': 0}
    samples = []
    seeds = {}

    def judge(env, e, i):
        try:
            p = at(q, L, env, i, fam, e, dist)
            if p is None:
                return
            if p.word is None and e.near < 5e-4:
                cnt['skipped'] += 1
                return
            res = visit(p)
        except NumErr:
            cnt['skipped'] += 1
            return
        hit.setdefault(i, set()).add(p.word or 'generic')
        cnt['obligations'] += res[0]
        if p.word is None and len(seeds.setdefault(i, [])) < 12:
            seeds[i].append(env)
        if len(samples) < 2 and p.word is None:
            samples.append({'space': fam, 'candidate': i, 'word': shape(p.cs), 'length': str(p.length)})
        for rule, what in res[1]:
            fails.setdefault((i, rule), []).append((env, what, p))
    for env in points(fam, n, seed, im):
        cnt['points'] += 1
        e = PathEval(q, L, env)
        for i in ids:
            judge(env, e, i)
    st = Steer(q, L, fam)
    pl = Place(q, L)
    starts = [x for x in points(fam, max(n, 36), seed + 5, 0.0) if 'word' not in x]
    for i in ids:
        if i not in seeds and pl.evals < 8000:
            env = pl.find(i, starts)
            if env is not None:
                cnt['placed'] += 1
                judge(env, PathEval(q, L, env), i)
    for i in ids:
        for env in list(st.points(i, [{k: (complex(v.real) if k != 'word' else v) for k, v in x.items()} for x in seeds.get(i, ())[:12]])):
            cnt['points'] += 1
            cnt['steered'] += 1
            judge(env, PathEval(q, L, env), i)
    viol = []
    r = random.Random(7)
    for (i, rule), fl in sorted(fails.items(), key=lambda x: x[0]):
        conf = []
        for env, what, p in fl[:40]:
            if p.word is not None:
                conf.append((env, what, p))
                continue
            ok = 0
            for _ in range(2):
                try:
                    p2 = at(q, L, perturb(env, r), i, fam, None, dist)
                    if p2 is not None and any(x[0] == rule for x in visit(p2)[1]):
                        ok += 1
                except NumErr:
                    pass
            if ok == 2:
                conf.append((env, what, p))
        gen = [c for c in conf if c[2].word is None]
        if gen or len(conf) >= 2:
            env, what, p = (gen or conf)[0]
            st = sites(p)
            wh = '%s:%d (%s)' % (lib.short(st[0][0]), st[0][1], st[0][2]) if st else 'planner ' + fam
            viol.append((rule, wh, '%s: path %s: %s' % (fam, shape(p.cs), what), ['block emitted at %s:%d' % (lib.short(o[0]), o[1]) for o in st] +
                         ['generic point: ' + ', '.join('%s=%.6g' % (k, complex(v).real) for k, v in sorted(env.items()) if k not in ('word', 'disc', 'd_in'))]))
    return {'viol': viol, 'samples': samples,
            'counts': {'obligations': cnt['obligations'], 'points moved to the border of a decision': cnt['steered'], 'candidates reached by repairing decisions': cnt['placed'], 'candidate paths': len(ids), 'candidate paths with a generic point': len(hit),
                       'candidates only on a degenerate manifold': sum('generic' not in w for w in hit.values()),
                       'points of the value graph': cnt['points'], 'points skipped (ill-conditioned)': cnt['skipped']}}


def p_word(env):
    return env.get('word')


def survey(prog, fam, visit, n=60, seed=1, im=1e-2, dist=True, leaves=None, nproc=4, per=None):
    """visit(path) -> (number of obligations, [(rule, what)]) on every candidate of the family"""
    L = leaves or Leaves(prog)
    q = families.pass1(prog, fam, 'ctl_', stubs=FRESNEL)
    if dist:
        q.discover('dst_' + fam)
    out = []

    def task(ids):
        def f():
            pc = q.scenarios(ids)
            q.run('ctl_' + fam, pc)
            if dist:
                q.run('dst_' + fam, pc)
            return (per or survey_group)(q, L, fam, ids, visit, n, seed, im, dist)
        return f
    gs = families.groups(q)
    if len(gs) == 1:
        out.append(task(gs[0])())
    else:
        lib.fan([('%s/%d' % (fam, i), task(g)) for i, g in enumerate(gs)], lambda _, r: out.append(r), nproc)
    r = families.merge(out)
    c = r['counts']
    if c['candidate paths with a generic point'] < 0.7 * c['candidate paths']:
        raise lib.Broken('%s: only %d of %d candidates could be placed on their region of existence' % (
            fam, c['candidate paths with a generic point'], c['candidate paths']))
    return r

"""The two spaces that plan between arbitrary boundary curvatures by delegating to four sub-planners each.  A call of a
sub-planner is one opaque path block (its own obligations are discharged on the sub-planner itself)."""
import cmath, math, random
import lib
from query import Q, SF, F64, EPSMAX
from num import Eval, NumErr, uf_value, PI
from paths import PathEval, advance, point, sgnr
from terms import T
from interp import Ptr, U, Undecided
from bdd import Node

SUB = {'hc_rs': ['HC00_Reeds_Shepp', 'HC0pm_Reeds_Shepp', 'HCpm0_Reeds_Shepp', 'HCpmpm_Reeds_Shepp'],
       'cc_dubins_f': ['CC00_Dubins', 'CC0pm_Dubins', 'CCpm0_Dubins', 'CCpmpm_Dubins']}
SUB['cc_dubins_b'] = SUB['cc_dubins_f']
WRAP = ['hc_rs', 'cc_dubins_f', 'cc_dubins_b']
CLASSES = ['pos', 'neg', 'zero', 'max', 'min']


def subst(cls, name):
    if cls == 'zero':
        return lambda t: t.const(0.0)
    if cls == 'max':
        return lambda t: t.sym('kappa')
    if cls == 'min':
        return lambda t: t.un('neg', t.sym('kappa'))
    return None


class Split(Exception):
    pass


def small(t):
    return t.op == 'c' and 0 < t.args[0] <= EPSMAX


class W(Q):
    """eqk: index of the start/goal prediction pair whose states may coincide (all other pairs are in general position)"""

    def __init__(self, prog, fam, c1='pos', c2='pos', generic=True, eqk=None, **kw):
        st = {}
        self.cls = (c1, c2)
        self.curvm = {}
        self.samples = None
        self.force = kw.pop('force', None)
        self.cuts = []
        self.decided = {}
        self.cmpm = {}
        self.eqk = eqk
        self.eqn = 0
        self.eqargs = None
        self.eqvar = None
        self.snap = []
        st['steering::state_equal'] = self.s_equal
        for s in SUB[fam]:
            st['steering::%s_State_Space::get_controls' % s] = self.s_sub(s)
            st['steering::%s_State_Space::get_distance' % s] = self.s_subd(s)
        st['steering::fresnel'] = self.s_fresnel
        st.update(kw.pop('stubs', {}))
        Q.__init__(self, prog, stubs=st, turns=False, **kw)
        self.fam = fam
        self.generic = generic
        self.t.pos |= {'kappa', 'sigma', 'disc'}
        for n, c in (('k1', c1), ('k2', c2)):
            f = subst(c, n)
            if f:
                self.subst[n] = f

    def s_equal(self, I, name, args, ins, pc):
        k = self.eqn
        self.eqn += 1
        if k != self.eqk:
            return 0
        mod = ins.fn.mod
        self.eqargs = self.state(args[0], pc, mod) + self.state(args[1], pc, mod)
        return 1

    # ---- sign analysis of expressions over the curvatures and limits only, on the class under analysis
    def curv_only(self, t):
        r = self.curvm.get(t.uid)
        if r is None:
            if t.op == 'sym':
                r = t.args[0] in ('kappa', 'sigma', 'k1', 'k2')
            elif t.op == 'c':
                r = True
            elif t.op in ('+', '-', '*', '/', 'neg', 'fabs', 'sqrt'):
                r = all(self.curv_only(a) for a in t.args)
            else:
                r = False
            self.curvm[t.uid] = r
        return r

    def cmp(self, pred, a, b):
        if pred in ('lt', 'eq') and a is not b and not (a.op == 'c' and b.op == 'c') and self.curv_only(a) and self.curv_only(b):
            if self.samples is None:
                r = random.Random(11)
                self.samples = [wpoint(r, self.cls[0], self.cls[1], 0.0) for _ in range(40)]
                for e in self.samples[:12]:
                    self.samples += list(scan(e, self.cls))
            k = (pred, a.uid, b.uid)
            d = self.cmpm.get(k)
            if d is None:
                d = self.cmpm[k] = []
                for e in self.samples:
                    ev = Eval(self.B, e)
                    d.append((ev.val(a) - ev.val(b)).real)
            tiny = EPSMAX * 1e-6
            if not d:
                return Q.cmp(self, pred, a, b)
            if all(x > tiny for x in d):
                return 0
            if all(x < -tiny for x in d):
                return 1 if pred == 'lt' else 0
            if all(abs(x) < 1e-12 for x in d):
                return 0 if pred == 'lt' else 1
            if self.force is not None and not (self.generic and (small(a) or small(b))):
                # decided differently within the class: the class falls apart
                k = (pred, a.uid, b.uid)
                if k not in self.decided:
                    if len(self.cuts) >= len(self.force):
                        raise Split()
                    v = self.force[len(self.cuts)]
                    self.cuts.append((pred, a, b, v))
                    self.decided[k] = v
                    self.samples = [e for e in self.samples if self.region(e, self.cuts[-1:])]
                    self.cmpm.clear()
                return self.decided[k]
        return Q.cmp(self, pred, a, b)

    def region(self, e, cuts=None):
        ev = Eval(self.B, e)
        for pred, a, b, v in self.cuts if cuts is None else cuts:
            d = (ev.val(a) - ev.val(b)).real
            if (d < 0 if pred == 'lt' else abs(d) < 1e-12) != bool(v):
                return False
        return True

    def run(self, drv, pc=1):
        self.eqn = 0
        Q.run(self, drv, pc)

    def s_fresnel(self, I, name, args, ins, pc):
        for p, op in ((args[1], 'fresnel_s'), (args[2], 'fresnel_c')):
            I.store(p, I.t.mk(op, I.as_double(args[0])), 8, pc)
        return U('x')

    def state(self, p, pc, mod):
        p = self.I.simp(p, pc)
        if type(p) is not Ptr or p.obj is None:
            raise Undecided('gated state argument')
        return self.fields(p, 'state', SF[:4], pc, mod)

    def s_sub(self, s):
        def f(I, name, args, ins, pc):
            mod = ins.fn.mod
            out, this, a, b = args
            self.snapshot(s, this, pc)
            blk = I.t.mk('blk_sub_' + s, *(self.state(a, pc, mod) + self.state(b, pc, mod)))
            I.memset(out, 0, 24, pc)
            # the emitted control stands for the whole path: its |delta_s| is the path length
            self.push(out, I.t.mk('len_sub_' + s, *blk.args), blk, blk, ins, pc)
            return U('x')
        return f

    def s_subd(self, s):
        def f(I, name, args, ins, pc):
            mod = ins.fn.mod
            self.snapshot(s, args[0], pc)
            return I.t.mk('len_sub_' + s, *(self.state(args[1], pc, mod) + self.state(args[2], pc, mod)))
        return f

    # ---- which planner is delegated to: contents of the sub-planner object
    def snapshot(self, s, this, pc):
        this = self.I.simp(this, pc)
        if type(this) is not Ptr or type(this.off) is not int:
            raise Undecided('gated planner object')
        self.snap.append((s, {o - this.off: v for o, v in this.obj.cells.items() if o >= this.off and plain(v)}, this.obj.kind, this.obj.id, this.off))


def plain(v):
    return type(v) is T or type(v) is int


class WEval(PathEval):
    """wrapper path: raw controls and opaque sub-planner blocks"""

    def __init__(self, q, env):
        PathEval.__init__(self, q, None, env)

    def coincide(self):
        a = [self.val(t) for t in self.q.eqargs]
        return max(abs(x - y) for x, y in zip(a[:2], a[4:6])) < 1e-6 and abs(cmath.exp(1j * a[2]) - cmath.exp(1j * a[6])) < 1e-6 and abs(a[3] - a[7]) < 1e-6

    def segments(self, recs):
        out = []
        for pc, ds, k, s in recs:
            if not self.cond(pc):
                continue
            b = self.leaf(k)
            if b.op.startswith('blk_sub_'):
                a = [self.val(t) for t in b.args]
                n = b.op[8:]
                ok = self.leaf(s) is b and abs(self.val(ds) - self.sublen(n, a)) < 1e-9
                out.append(('b', n, a, self.sublen(n, a), ok))
            else:
                out.append(('c', self.val(ds), self.val(k), self.val(s)))
        return out

    def sublen(self, n, a):
        return uf_value('len_sub_' + n, a, (2, 6)) + 5

    def ev(self, t):
        if t.op.startswith('len_sub_'):
            return self.sublen(t.op[8:], [self.val(x) for x in t.args])
        return PathEval.ev(self, t)


def pred_options(fam, K, S, k, goal):
    """leads from curvature k to 0 or to the maximum of the same sign: (target curvature, sharpness, signed length)"""
    if abs(k) < 1e-12 or abs(abs(k) - K) < 1e-12:
        return [(k, 0j, 0j)]
    s = 1 if k.real > 0 else -1
    ds = [1, -1]
    if fam != 'hc_rs':
        f = 1 if fam.endswith('_f') else -1
        ds = [-f if goal else f]
    out = []
    for d in ds:
        out.append((s * K, s * S, d * (K - s * k) / S))
        out.append((0j, -s * S, d * s * k / S))
    return out


def value(cls, K, r, im):
    if cls == 'zero':
        return 0j
    if cls == 'max':
        return K
    if cls == 'min':
        return -K
    g = 1 if cls == 'pos' else -1
    if r.random() < 0.4:
        # little more than zero, or little less than the maximum
        a = 10 ** r.uniform(-3.3, -1) * min(K.real, 1.0)
        return g * complex(a if r.random() < 0.6 else K.real - a, im * a * r.uniform(-1, 1))
    return g * complex(r.uniform(0.15, 0.85) * K.real, im * r.uniform(-1, 1))


def scan(e, cls):
    """the same problem for other boundary curvatures of its class, up to both ends of the class"""
    K = e['kappa'].real
    for n, c in (('k1', cls[0]), ('k2', cls[1])):
        if c in ('pos', 'neg'):
            for j in range(14):
                a = 2e-4 * 10 ** (j * 0.2)
                for b in (a, K - a):
                    if 1e-4 < b < K - 1e-4:
                        f = dict(e)
                        f[n] = complex(b if c == 'pos' else -b)
                        yield f


def wpoint(r, c1, c2, im):
    if r.random() < 0.3:
        # very slow or very fast steering
        im *= 1e-3
        e = point(r, im, True)
        e['sigma'] = complex(e['kappa'].real ** 2 * math.exp(r.uniform(-5, 5)), im * r.uniform(-1, 1) * e['kappa'].real ** 2 * 1e-2)
    else:
        e = point(r, im, r.random() < 0.4)
    e['k1'] = value(c1, e['kappa'], r, im)
    e['k2'] = value(c2, e['kappa'], r, im)
    return e


def wspecial(r, fam, c1, c2, im):
    """start and goal whose predictions coincide, for every pair of predictions with equal curvature"""
    e = wpoint(r, c1, c2, im)
    K, S = e['kappa'], e['sigma']
    for a in pred_options(fam, K, S, e['k1'], False):
        for b in pred_options(fam, K, S, e['k2'], True):
            if abs(a[0] - b[0]) > 1e-9:
                continue
            f = dict(e)
            p = advance((e['x1'], e['y1'], e['th1']), (a[2], e['k1'], a[1]))
            # the goal pose is the one from which option b leads to p
            x, y, th = advance((0j, 0j, 0j), (b[2], e['k2'], b[1]))
            th2 = p[2] - th
            f['th2'] = th2
            f['x2'] = p[0] - (x * cmath.cos(th2) - y * cmath.sin(th2))
            f['y2'] = p[1] - (x * cmath.sin(th2) + y * cmath.cos(th2))
            f['word'] = 'coinciding predictions'
            yield f


class WPath:
    __slots__ = ('fam', 'cand', 'env', 'word', 'segs', 'length', 'dist', 'ev', 'q', 'cls')


def wat(q, env, i):
    e = WEval(q, env)
    if i is not None:
        e.select(i)
        if not e.cond(q.exist[i]):
            return None
    p = WPath()
    p.fam, p.cand, p.env, p.q, p.ev, p.word = q.fam, i, env, q, e, env.get('word')
    p.segs = e.segments(q.ctrls)
    p.dist = e.double('distance')
    p.length = e.val(q.cands[i]) if i is not None else None
    return p


def parts(prog, fam, c1, c2, force=()):
    """the class of boundary curvatures, or the parts of it in which the planner decides alike"""
    try:
        return [(force,) + analyse(prog, fam, c1, c2, force=force)]
    except Split:
        if len(force) >= 4:
            raise lib.Broken('%s decides in too many ways on the boundary curvatures alone' % fam)
        return parts(prog, fam, c1, c2, force + (0,)) + parts(prog, fam, c1, c2, force + (1,))


def analyse(prog, fam, c1, c2, eqk=None, force=None):
    q = W(prog, fam, c1, c2, eqk=eqk, force=force)
    q.discover('ctl_' + fam)
    q.discover('dst_' + fam)
    q.ncalls = q.eqn
    q.ctrls = []
    q.doubles = {}
    q.snap = []
    ids = sorted(q.exist)
    pc = q.scenarios(ids) if ids else 1
    q.run('ctl_' + fam, pc)
    q.run('dst_' + fam, pc)
    return q, ids or [None]


def reference(prog, fam):
    """the sub-planner objects as a user would construct them with the same parameters"""
    q = W(prog, fam, partition=False)
    q.run('ref_' + fam)
    return {s: c for s, c, _, _, _ in q.snap}, q


def segs_goal_error(p):
    v = p.env
    st = (v['x1'], v['y1'], v['th1'])
    err = 0
    for g in p.segs:
        if g[0] == 'c':
            st = advance(st, g[1:])
        else:
            a = g[2]
            err = max(err, abs(st[0] - a[0]), abs(st[1] - a[1]), ang(st[2] - a[2]))
            st = tuple(a[4:7])
    return max(err, abs(st[0] - v['x2']), abs(st[1] - v['y2']), ang(st[2] - v['th2']))


def ang(d):
    return abs(d - 2 * PI * round(d.real / (2 * PI)))

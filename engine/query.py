"""Whole-query analysis: runs a driver (public API call sequence on symbolic inputs) through the gated interpreter.

Selection between candidate paths is partitioned by a scenario number: comparisons between candidate lengths are decided
by "candidate s is the favourite", so that every candidate is, in its own partition, the selected one."""
import os, sys, time
import build, irparse
from bdd import Node, Budget
from terms import T, BIG
from interp import Interp, Program, Ptr, U, NULL, Undecided, Agg, fmtloc

CF = ['xc', 'yc', 'radius', 'mu', 'sin_mu', 'cos_mu', 'delta_min', 'kappa', 'kappa_inv', 'sigma', 'sx', 'sy', 'stheta',
      'skappa', 'left', 'forward', 'regular']
QF = ['x', 'y', 'theta', 'kappa']
SF = ['x', 'y', 'theta', 'kappa', 'd']
F64 = ('f', 64)
SBITS = 6
INPUTS = {'x1', 'y1', 'th1', 'k1', 'x2', 'y2', 'th2', 'k2', 'd_in', 'x', 'y', 'th', 'k', 'd', 't', 'ds1', 'ck1', 'cs1', 'ds2', 'ck2', 'cs2', 'ds3', 'ck3', 'cs3'}
EPSMAX = 1e-3


def load_program(extra=None, out=None, defs=()):
    ms, d = build.compile_all(extra=[os.path.join(build.HERE, f) for f in ('drivers.cpp', 'drivers_aux.cpp', 'drivers_ekf.cpp', 'drivers_path.cpp', 'drivers_life.cpp')] + list(extra or []), out=out, defs=defs)
    prog = Program([irparse.Module(p, n) for n, p in ms])
    prog.dir = d
    return prog


def rdstr(I, p):
    b = bytearray(); k = 0
    while True:
        c = p.obj.cells[p.off + k]
        if c == 0:
            break
        b.append(c); k += 1
    return b.decode()


class Q:
    """one analysed query"""

    def __init__(self, prog, stubs=None, opts=None, partition=True, turns=True):
        self.prog = prog
        self.ctrls = []          # (pc, ds, kappa, sigma) in program order
        self.doubles = {}
        self.marks = {}
        self.selfs = set()
        self.stalev = {}
        self.bools = {}
        self.events = []
        st = {'vp_sym': self.s_sym, 'vp_bool': self.s_bool, 'vp_mark': self.s_mark, 'vp_control': self.s_control, 'vp_double': self.s_double, 'vp_self': self.s_self}
        if turns:
            for k in ('rs', 'hc', 'cc'):
                st['steering::HC_CC_Circle::%s_turn_length' % k] = self.s_len(k)
                st['steering::%s_turn_controls' % k] = self.s_turn(k)
            st['steering::straight_controls'] = self.s_straight
            st['steering::empty_controls'] = self.s_empty
        if stubs:
            st.update(stubs)
        self.stale = {}
        self.byseq = {}
        self.I = Interp(prog, st, opts)
        self.I.new_hook = self.seen_obj
        self.B = self.I.B
        self.t = self.I.t
        self.offs = {}
        self.cand = {}           # term uid -> id
        self.cands = []          # id -> term
        self.hlm = {}
        self.candb = {}
        self.ltm = {}
        self.sel_cmps = 0
        self.generic = False
        self.subst = {}
        self.origin = {}         # uid of a block node -> where it was emitted
        if partition:
            self.setup_partition()

    # ---- partition on the selected candidate
    def setup_partition(self):
        B = self.B
        self.sb = [B.new_var(('s', None, None, i)) for i in range(SBITS)]
        B.seal_top()
        self.iscache = {}
        self.favs = {}           # candidate id -> scenario number (second pass only)
        self.exist = {}          # candidate id -> condition under which it takes part in the selection
        self.raw = self.t.cmp
        self.t.cmp = self.cmp
        self.I.fcmp_hook = self.on_fcmp

    def on_fcmp(self, pred, x, y, pc):
        if self.favs or x is y or not self.selcmp(x, y):
            return
        for z in (x, y):
            for c, lf in self.tleaves(self.lift(z), pc):
                if lf.op == 'c' and lf.args[0] >= BIG:
                    continue
                i = self.cid(lf)
                self.exist[i] = self.B.OR(self.exist.get(i, 0), c)

    def scenarios(self, ids):
        """start of the second pass: one partition per candidate in ids; returns the initial condition"""
        self.favs = {i: k for k, i in enumerate(ids)}
        self.ltm = {}
        self.ctrls = []
        self.doubles = {}
        pc = 0
        for i, k in self.favs.items():
            pc = self.B.OR(pc, self.B.AND(self.is_s(k), self.exist[i]))
        self.pc0 = pc
        return pc

    def is_s(self, k):
        r = self.iscache.get(k)
        if r is None:
            B = self.B
            r = 1
            for i, v in enumerate(self.sb):      # sb[0] is lowest
                bit = (k >> i) & 1
                r = B.mk(v, r, 0) if bit else B.mk(v, 0, r)
            self.iscache[k] = r
        return r

    def has_len(self, t):
        r = self.hlm.get(t.uid)
        if r is None:
            r = t.op.startswith('len_') or any(type(a) is T and self.has_len(a) for a in t.args)
            self.hlm[t.uid] = r
        return r

    def selcmp(self, a, b):
        return self.has_len(a) or self.has_len(b)

    def lift(self, t):
        """push an additive constant into the arms of a gated term"""
        if t.op in '+-' and len(t.args) == 2:
            a, b = t.args
            if b.op == 'c' or a.op == 'c':
                g = self.lift(a if b.op == 'c' else b)
                if g.op == 'sel':
                    m = {}

                    def rec(x):
                        if x.op != 'sel':
                            return self.lift(self.t.bin(t.op, x, b) if b.op == 'c' else self.t.bin(t.op, a, x))
                        r = m.get(x.uid)
                        if r is None:
                            r = self.t.sel(x.args[0], rec(x.args[1]), rec(x.args[2]))
                            m[x.uid] = r
                        return r
                    return rec(g)
        return t

    def base(self, t):
        """non-constant addends of a length"""
        out = []
        st = [t]
        while st:
            x = st.pop()
            if x.op == '+':
                st.extend(x.args)
            elif x.op == '-' and x.args[1].op == 'c':
                st.append(x.args[0])
            elif x.op == '*' and x.args[0].op == 'c' and x.args[0].args[0] in (2.0, 3.0, 4.0):
                st.extend([x.args[1]] * int(x.args[0].args[0]))
            elif x.op == '*' and x.args[1].op == 'c' and x.args[1].args[0] in (2.0, 3.0, 4.0):
                st.extend([x.args[0]] * int(x.args[1].args[0]))
            elif x.op != 'c':
                out.append(x)
        return tuple(sorted(x.uid for x in out))

    def cid(self, t):
        r = self.cand.get(t.uid)
        if r is None:
            k = self.base(t)
            r = self.candb.get(k)
            if r is None:
                if self.favs:
                    raise Undecided('candidate first compared in the second pass')
                if self.B.limit < 1 << 50:
                    self.B.limit = 3 * self.B.n + 300000
                r = len(self.cands)
                self.candb[k] = r
                self.cands.append(t)
            self.cand[t.uid] = r
        return r

    def cmp(self, pred, a, b):
        if self.generic and pred == 'lt' and a is not b:
            # general position: nothing lies within the comparison tolerance
            if b.op == 'c' and 0 < b.args[0] <= EPSMAX and a.op != 'c':
                return 0
            if a.op == 'c' and 0 < a.args[0] <= EPSMAX and b.op != 'c':
                return 1
        if pred == 'lt' and a is not b and self.selcmp(a, b):
            self.sel_cmps += 1
            return self.olt(self.lift(a), self.lift(b))
        return self.raw(pred, a, b)

    def olt(self, a, b):
        k = (a.uid, b.uid)
        r = self.ltm.get(k)
        if r is None:
            B = self.B
            if a.op == 'sel':
                r = B.ite(a.args[0], self.olt(a.args[1], b), self.olt(a.args[2], b))
            elif b.op == 'sel':
                r = B.ite(b.args[0], self.olt(a, b.args[1]), self.olt(a, b.args[2]))
            elif a is b:
                r = 0
            elif (a.op == 'c' and a.args[0] >= BIG) or (b.op == 'c' and b.args[0] >= BIG) or not self.selcmp(a, b):
                r = self.raw('lt', a, b)
            else:
                i, j = self.cid(a), self.cid(b)
                r = 1 if i < j else 0
                if j in self.favs:
                    r = B.ite(self.is_s(self.favs[j]), 0, r)
                if i in self.favs:
                    r = B.ite(self.is_s(self.favs[i]), 1, r)
            self.ltm[k] = r
        return r

    def seen_obj(self, o):
        if self.I.born is None:
            self.byseq[o.seq - self.I.seq0] = o

    # ---- stubs
    def s_sym(self, I, name, args, ins, pc):
        n = rdstr(I, args[0])
        f = self.subst.get(n)
        return f(I.t) if f else I.t.sym(n)

    def s_bool(self, I, name, args, ins, pc):
        n = rdstr(I, args[0])
        if n not in self.bools:
            self.bools[n] = self.B.new_var(('bool', None, None, n))
        return self.B.var(self.bools[n])

    def s_mark(self, I, name, args, ins, pc):
        m = rdstr(I, args[0])
        self.marks[m] = pc
        if m == 'born':
            self.forget(pc)
            I.born = I.nseq
        elif m == 'emit':
            I.born = None
        self.on_mark(m, pc)
        return U('x')

    def s_self(self, I, name, args, ins, pc):
        self.selfs = {lf.obj.id for lf in self.B.leaves(args[0]) if type(lf) is Ptr and lf.obj is not None}
        return U('x')

    def forget(self, pc):
        """history: every cell of the planner that some query writes holds an arbitrary value"""
        if not self.stale:
            return
        for (k, off), (size, how) in self.stale.items():
            if type(k) is int:
                os_ = [self.byseq[k]] if k in self.byseq else []
            else:
                os_ = {self.I.global_ptr(m, k).obj for m in self.prog.mods if k in m.globals}
            n = '%s_%d' % (k, off)
            if how == 'f':
                v = self.t.sym('stale_' + n)
            elif how == 'b':
                if n not in self.stalev:
                    self.stalev[n] = self.B.new_var(('stale', None, None, n))
                v = self.B.var(self.stalev[n])
            else:
                v = U(('stale', n))
            for o in os_:
                self.I.put(o, off, size, v, pc)

    def stale_cells(self):
        """cells that outlive the query (planner, its heap, globals) and that it writes with something depending on its inputs"""
        out, ptrs = {}, []
        for (k, off), (size, vals, loc, o) in self.I.pwrites.items():
            if o.kind == 'stack' and o.id not in self.selfs or str(k).startswith('_ZGV'):
                continue
            how = None
            for v in vals:
                if type(v) is T:
                    if any(x.op == 'sym' and (o.kind == 'global' or x.args[0] in INPUTS) for x in self.t.support(v)):
                        how = 'f'
                elif how != 'f':
                    lv = self.B.leaves(v) if type(v) is Node else [v]
                    if size == 1 and all(type(x) is int and x in (0, 1) for x in lv):
                        how = how or 'b'
                    else:
                        how = 'p'
                        ptrs.append((k, off, loc))
            if how:
                out[(k, off)] = (size, how)
        return out, ptrs

    def on_mark(self, m, pc):
        pass

    def s_double(self, I, name, args, ins, pc):
        self.doubles.setdefault(rdstr(I, args[0]), []).append((pc, args[1]))
        return U('x')

    def s_control(self, I, name, args, ins, pc):
        self.ctrls.append((pc,) + tuple(args))
        return U('x')

    def offset(self, what):
        o = self.offs.get(what)
        if o is None:
            f = self.prog.fn['acc_' + what]
            o = field_offset(f)
            self.offs[what] = o
        return o

    def fields(self, p, kind, names, pc, mod):
        out = []
        for n in names:
            off, ty = self.offset(kind + '_' + n)
            v = self.I.load(Ptr(p.obj, p.off + off) if off else p, ty, mod, pc)
            out.append(self.I.as_term(v) if type(v) is not T else v)
        return out

    def circle_q(self, op, extra, args, ins, pc):
        """UF term over the contents of a circle and a configuration"""
        I = self.I
        B = self.B
        c, q = I.simp(args[0], pc), I.simp(args[1], pc)
        mod = ins.fn.mod

        def one(cp, qp, p):
            for x in (cp, qp):
                if type(x) is not Ptr or x.obj is None:
                    I.load(x, F64, mod, p)       # reports
                    return I.t.mk('undef', ('bad-arg',))
            return I.t.mk(op, *(list(extra) + self.fields(cp, 'circle', CF, p, mod) + self.fields(qp, 'conf', QF, p, mod)))
        if type(c) is not Node and type(q) is not Node:
            return one(c, q, pc)
        comb = B.restrict(B.apply2('pair', lambda x, y: (x, y), c, q), pc)
        if type(comb) is not Node:
            return one(comb[0], comb[1], pc)
        vals = {}
        for lf in B.leaves(comb):
            cc = B.AND(pc, B.is_leaf(comb, lf))
            if type(cc) is int and cc == 0:
                vals[lf] = I.t.mk('undef', ('unreachable',))
            else:
                vals[lf] = one(lf[0], lf[1], cc)
        memo = {}

        def rec(x):
            if type(x) is not Node:
                return vals[x]
            r = memo.get(x.uid)
            if r is None:
                r = I.t.sel(B.mk(x.var, 1, 0), rec(x.hi), rec(x.lo))
                memo[x.uid] = r
            return r
        return rec(comb)

    def s_len(self, kind):
        def f(I, name, args, ins, pc):
            return self.circle_q('len_' + kind, [], args, ins, pc)
        return f

    def push(self, vec, ds, ka, si, ins, pc):
        I = self.I
        I.call(self.prog.fn['vp_push'], [vec, ds, ka, si], pc, ins)

    def note(self, b):
        st = [b]
        seen = set()
        while st:
            x = st.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if x.op == 'sel':
                st += x.args[1:]
            elif x.uid not in self.origin:
                lo = self.I.repo_loc()
                self.origin[x.uid] = (lo[0], lo[1], self.prog.short(lo[2]).split('(')[0])

    def s_turn(self, kind):
        def f(I, name, args, ins, pc):
            order = I.simp(args[2], pc)
            if type(order) is not int:
                raise Undecided('turn order is not a constant')
            b = self.circle_q('blk_' + kind, [I.t.const(order & 1)], args, ins, pc)
            self.note(b)
            self.push(args[3], b, b, b, ins, pc)
            return U('x')
        return f

    def s_straight(self, I, name, args, ins, pc):
        B = self.B
        mod = ins.fn.mod
        a, b = I.simp(args[0], pc), I.simp(args[1], pc)
        comb = B.restrict(B.apply2('pair', lambda x, y: (x, y), a, b), pc) if Node in (type(a), type(b)) else (a, b)
        vals = {}
        for lf in B.leaves(comb):
            cc = B.AND(pc, B.is_leaf(comb, lf)) if type(comb) is Node else pc
            bad = [x for x in lf if type(x) is not Ptr or x.obj is None]
            if type(cc) is int and cc == 0:
                vals[lf] = I.t.mk('undef', ('unreachable',))
            elif bad:
                I.load(bad[0], F64, mod, cc)
                vals[lf] = I.t.mk('undef', ('bad-arg',))
            else:
                vals[lf] = I.t.mk('blk_s', *(self.fields(lf[0], 'conf', QF, cc, mod) + self.fields(lf[1], 'conf', QF, cc, mod)))
        memo = {}

        def rec(x):
            if type(x) is not Node:
                return vals[x]
            r = memo.get(x.uid)
            if r is None:
                r = I.t.sel(B.mk(x.var, 1, 0), rec(x.hi), rec(x.lo))
                memo[x.uid] = r
            return r
        t = rec(comb)
        self.note(t)
        self.push(args[2], t, t, t, ins, pc)
        return U('x')

    def s_empty(self, I, name, args, ins, pc):
        t = I.t.mk('blk_e')
        self.push(args[0], t, t, t, ins, pc)
        return U('x')

    def discover(self, drv):
        """first pass: which candidates take part in the selection, and when.  Everything after the last comparison is of
        no interest and is cut off when its conditions grow too large."""
        self.B.limit = self.B.n + 1000000
        try:
            self.run(drv)
        except Budget:
            self.I.stack = []
        self.B.limit = 1 << 60

    def run(self, drv, pc=1):
        f = self.prog.fn.get(drv)
        if f is None:
            raise Undecided('driver %s missing' % drv)
        self.I.born = None
        self.I.seq0 = self.I.nseq
        self.I.call(f, [], pc)
        self.endpc = self.I.last_ret_pc

    # ---- results per partition
    def leafcond(self, t, leaf, memo=None):
        """condition under which gated term t is `leaf`"""
        memo = {} if memo is None else memo
        if t.op != 'sel':
            return 1 if t is leaf else 0
        r = memo.get(t.uid)
        if r is None:
            r = self.B.ite(t.args[0], self.leafcond(t.args[1], leaf, memo), self.leafcond(t.args[2], leaf, memo))
            memo[t.uid] = r
        return r

    def tleaves(self, t, pc=1):
        """[(cond, leaf term)] for a gated term under pc"""
        out = {}
        B = self.B
        memo = {}

        def rec(x, c):
            if type(c) is int and c == 0:
                return
            if x.op == 'sel':
                rec(x.args[1], B.AND(c, x.args[0]))
                rec(x.args[2], B.AND(c, B.NOT(x.args[0])))
            else:
                out[x.uid] = (B.OR(out[x.uid][0], c) if x.uid in out else c, x)
        # collect per node conditions top-down in topological order to avoid path explosion
        order = []
        seen = set()

        def topo(x):
            if x.uid in seen:
                return
            seen.add(x.uid)
            if x.op == 'sel':
                topo(x.args[1]); topo(x.args[2])
            order.append(x)
        topo(t)
        cond = {t.uid: pc}
        for x in reversed(order):
            c = cond.get(x.uid, 0)
            if type(c) is int and c == 0:
                continue
            if x.op == 'sel':
                for y, cc in ((x.args[1], B.AND(c, x.args[0])), (x.args[2], B.AND(c, B.NOT(x.args[0])))):
                    cond[y.uid] = B.OR(cond.get(y.uid, 0), cc)
            else:
                out[x.uid] = (c, x)
        return [v for v in out.values()]


def field_offset(f):
    """offset and type read by an accessor function"""
    f.parse()
    off = 0
    base = f.params[0][1]
    regs = {base: 0}
    ty = None
    for b in f.blocks.values():
        for i in b.ins:
            if i.op == 'getelementptr' and i.a[1][0] == 'reg' and i.a[1][1] in regs:
                o = regs[i.a[1][1]]
                cur = i.a[0]
                for k, (t, v) in enumerate(i.a[2]):
                    if k == 0:
                        o += f.mod.size(cur) * v[1]
                    else:
                        r = f.mod.resolve(cur)
                        o += f.mod.layout(cur)[2][v[1]]
                        cur = r[2][v[1]]
                regs[i.res] = o
            elif i.op == 'load' and i.a[0][0] == 'reg' and i.a[0][1] in regs:
                off = regs[i.a[0][1]]
                ty = i.ty
    if ty is None:
        raise Undecided('accessor ' + f.name)
    return off, ty

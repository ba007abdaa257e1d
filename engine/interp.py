"""Predicated ("gated") abstract interpretation of LLVM IR.

Every instruction of every reached function is transferred once per (call context, loop iteration with a statically
known trip count).  Control-flow joins are never split into paths: each block carries a path condition (a BDD over
comparison atoms), memory cells and registers hold gated values, doubles are nodes of a hash-consed value graph.
No solver, no path enumeration, and the code under analysis is never executed.
"""
import heapq, struct, sys, subprocess, re
from bdd import BDD, Node
from terms import Terms, T, show
import irparse

sys.setrecursionlimit(1000000)


class Ptr:
    __slots__ = ('obj', 'off', '_h')

    def __init__(self, obj, off):
        self.obj = obj; self.off = off
        self._h = hash((obj.id if obj is not None else 0, off))

    def __eq__(self, o):
        return type(o) is Ptr and o.obj is self.obj and o.off == self.off

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '&%s+%s' % (self.obj.name if self.obj else 'null', self.off)


NULL = Ptr(None, 0)


class Fn:
    __slots__ = ('f', 'name')

    def __init__(self, name, f):
        self.name = name; self.f = f

    def __eq__(self, o):
        return type(o) is Fn and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'fn:' + self.name


class U:
    """uninitialised value"""
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what

    def __eq__(self, o):
        return type(o) is U and o.what == self.what

    def __hash__(self):
        return hash(self.what)

    def __repr__(self):
        return 'U(%s)' % (self.what,)


class Agg(tuple):
    pass


class Obj:
    __slots__ = ('id', 'size', 'kind', 'birth', 'freed', 'cells', 'csz', 'fills', 'name', 'site', 'stack', 'meta',
                 'freesites', 'freekind', 'arr', 'seq')

    def __init__(self, id, size, kind, birth, name, site):
        self.id = id; self.size = size; self.kind = kind; self.birth = birth; self.freed = 0
        self.cells = {}; self.csz = {}; self.fills = []; self.name = name; self.site = site; self.stack = ()
        self.meta = None; self.freesites = []; self.freekind = None; self.arr = None; self.seq = None


class Undecided(Exception):
    pass


class Program:
    def __init__(self, modules):
        self.mods = modules
        self.fn = {}
        self.glob = {}
        self.alias = {}
        for m in modules:
            for n, f in m.funcs.items():
                if f.internal:
                    continue
                self.fn.setdefault(n, f)
            for n, t in m.aliases.items():
                self.alias.setdefault(n, (m, t))
        for m in modules:
            for n in m.globals:
                rest = m.globals[n]
                if re.match(r'(?:[\w()]+ )*external ', rest):
                    continue
                if re.match(r'(?:[\w()]+ )*(internal|private) ', rest):
                    continue
                self.glob.setdefault(n, m)
        names = set()
        for m in modules:
            names.update(m.funcs); names.update(m.declares); names.update(m.aliases)
        names = sorted(names)
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))

    def find(self, mod, name):
        for _ in range(5):
            f = mod.funcs.get(name)
            if f is not None:
                return f
            f = self.fn.get(name)
            if f is not None:
                return f
            if name in mod.aliases:
                name = mod.aliases[name]
                continue
            if name in self.alias:
                mod, name = self.alias[name]
                continue
            return None
        return None

    def short(self, name):
        return self.dem.get(name, name)


FCMP = {'olt': 'lt', 'ult': 'lt', 'ole': 'le', 'ule': 'le', 'ogt': 'gt', 'ugt': 'gt', 'oge': 'ge', 'uge': 'ge',
        'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne'}
MATH1 = {'sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'sqrt', 'fabs', 'floor', 'ceil', 'exp', 'log', 'trunc', 'tanh',
         'sinh', 'cosh'}


class Frame:
    __slots__ = ('fn', 'regs', 'multi', 'bpc', 'allocas', 'depth', 'site')


class Interp:
    def __init__(self, prog, stubs=None, opts=None):
        self.prog = prog
        self.B = BDD()
        self.t = Terms(self.B)
        self.t.loc = self.curloc
        self.nobj = 0
        self.nseq = 0
        self.seq0 = 0                # objects of the current driver run are numbered from here
        self.born = None             # objects up to this number exist before the query proper
        self.pwrites = {}            # (number, offset) -> [size, values, where]: cells of such objects written by the query
        self.pobjs = {}
        self.objs = []
        self.globs = {}
        self.stubs = stubs or {}
        self.stubcache = {}
        self.reports = []
        self.rep_keys = set()
        self.ladder = {}
        self.events = []
        self.stack = []
        self.cur = None
        self.opts = opts or {}
        self.counts = {'instr': 0, 'blocks': 0, 'calls': 0, 'derefs': 0, 'frees': 0, 'allocs': 0, 'branches': 0}
        self.fns_seen = {}
        self.unmodelled = {}
        self.throws = 0
        self.heap = []
        self.loop_limit = self.opts.get('loop_limit', 600)
        self.sym_limit = self.opts.get('sym_limit', 40)
        self.unroll = self.opts.get('unroll')      # number of iterations considered of loops with symbolic trip count
        self.cuts = {}
        self.deriv = {}
        self.gates = {}
        self.written_globals = {}
        self.fcmp_hook = None
        self.new_hook = None
        self.read_globals = {}

    # ---------- utilities
    def curloc(self):
        i = self.cur
        if i is None:
            return ('?', 0, '?')
        f, l = i.fn.mod.loc(i.dbg)
        return (f, l, i.fn.name)

    def repo_loc(self):
        """innermost frame located in the analysed repository"""
        lo = self.curloc()
        if '/repo/' in lo[0]:
            return lo
        for fn, ins in reversed(self.stack):
            f, l = ins.fn.mod.loc(ins.dbg)
            if '/repo/' in f:
                return (f, l, ins.fn.name)
        return lo

    def callpath(self):
        out = []
        for fn, ins in self.stack[-12:]:
            f, l = ins.fn.mod.loc(ins.dbg)
            out.append('%s:%d' % (f, l))
        return out

    def report(self, kind, detail, cond=None, extra=None):
        lo = self.repo_loc()
        key = (kind, lo[0], lo[1], detail)
        if key in self.rep_keys:
            return
        self.rep_keys.add(key)
        self.reports.append({'kind': kind, 'file': lo[0], 'line': lo[1], 'fn': self.prog.short(lo[2]), 'detail': detail,
                             'path': self.callpath(), 'cond': cond, 'extra': extra})

    def new_obj(self, size, kind, birth, name):
        self.nobj += 1
        o = Obj(self.nobj, size, kind, birth, name, self.repo_loc() if kind == 'heap' else None)
        self.nseq += 1
        o.seq = self.nseq
        if self.new_hook:
            self.new_hook(o)
        return o

    # ---------- value helpers
    def vite(self, c, a, b):
        if type(c) is int:
            return a if c else b
        if a is b:
            return a
        if type(a) is T or type(b) is T:
            return self.t.sel(c, self.as_term(a), self.as_term(b))
        if type(a) is Agg or type(b) is Agg:
            if type(a) is Agg and type(b) is Agg:
                return Agg(self.vite(c, x, y) for x, y in zip(a, b))
            return a if type(a) is Agg else b
        return self.B.ite(c, a, b)

    def as_term(self, v):
        if type(v) is T:
            return v
        if type(v) is int:
            if v >= 1 << 63:
                v -= 1 << 64
            return self.t.const(float(v))
        if type(v) is U:
            return self.t.mk('undef', v.what)
        if type(v) is Node:
            memo = {}

            def rec(x):
                if type(x) is not Node:
                    return self.as_term(x)
                r = memo.get(x.uid)
                if r is None:
                    r = self.t.sel(self.B.mk(x.var, 1, 0), rec(x.hi), rec(x.lo))
                    memo[x.uid] = r
                return r
            return rec(v)
        if type(v) is Ptr:
            return self.t.mk('ptr', v.obj.id if v.obj else 0, v.off)
        raise Undecided('as_term %r' % (v,))

    def as_double(self, v):
        """interpret a loaded cell value as a double"""
        if type(v) is T:
            return v
        if type(v) is int:
            return self.t.const(struct.unpack('<d', struct.pack('<Q', v & (2**64 - 1)))[0])
        if type(v) is U:
            return self.t.mk('undef', v.what)
        if type(v) is Node:
            memo = {}

            def rec(x):
                if type(x) is not Node:
                    return self.as_double(x)
                r = memo.get(x.uid)
                if r is None:
                    r = self.t.sel(self.B.mk(x.var, 1, 0), rec(x.hi), rec(x.lo))
                    memo[x.uid] = r
                return r
            return rec(v)
        raise Undecided('as_double %r' % (v,))

    def as_bool(self, v):
        """i1 value -> condition"""
        if type(v) is int:
            return v & 1
        if type(v) is U:
            return self.undef_bool(v)
        if type(v) is Node:
            return self.B.map1(self.as_bool_leaf, v)
        if type(v) is T:
            return self.t.cmp('ne', v, self.t.const(0.0))
        raise Undecided('as_bool %r' % (v,))

    def as_bool_leaf(self, x):
        if type(x) is int:
            return x & 1
        if type(x) is U:
            return self.undef_bool(x)
        return 1

    def undef_bool(self, u):
        key = ('ub', u.what)
        r = self.stubcache.get(key)
        if r is None:
            v = self.B.new_var(('undef', self.t.mk('undef', u.what), None, self.curloc()))
            r = self.B.var(v)
            self.stubcache[key] = r
        return r

    def simp(self, v, pc):
        if type(v) is T:
            return self.t.simp(v, pc) if v.op == 'sel' else v
        if type(v) is Node:
            return self.B.restrict(v, pc)
        if type(v) is Agg:
            return Agg(self.simp(x, pc) for x in v)
        return v

    # ---------- globals
    def global_ptr(self, mod, name):
        m = mod
        if name in mod.globals:
            rest = mod.globals[name]
            if re.match(r'(?:[\w()]+ )*(internal|private) ', rest):
                key = (mod.name, name)
            else:
                key = name
                if re.match(r'(?:[\w()]+ )*external ', rest):
                    m = self.prog.glob.get(name, mod)
        else:
            key = name
            m = self.prog.glob.get(name, mod)
        o = self.globs.get(key)
        if o is None:
            ty, init, const, internal = m.global_def(name)
            self.nobj += 1
            o = Obj(self.nobj, m.size(ty) if init is not None else 1 << 30, 'global', 1, name, None)
            o.meta = {'const': const, 'ext': init is None}
            self.globs[key] = o
            if init is not None:
                b, self.born = self.born, None
                self.init_global(o, 0, ty, init, m)
                self.born = b
        return Ptr(o, 0)

    def init_global(self, o, off, ty, init, m):
        t = m.resolve(ty)
        if init[0] == 'zero':
            o.fills.append((off, off + m.size(ty), 0, 1))
        elif init[0] == 'undef':
            pass
        elif init[0] == 'bytes':
            for i, b in enumerate(init[1]):
                o.cells[off + i] = b; o.csz[off + i] = 1
        elif init[0] == 'agg':
            if t[0] == 'struct':
                offs = m.layout(ty)[2]
                for (et, ev), eo in zip(init[1], offs):
                    self.init_global(o, off + eo, et, ev, m)
            else:
                es = m.size(t[2])
                for i, (et, ev) in enumerate(init[1]):
                    self.init_global(o, off + i * es, et, ev, m)
        else:
            o.cells[off] = self.const_val(init, ty, m)
            o.csz[off] = m.size(ty)

    def const_val(self, c, ty, mod):
        k = c[0]
        if k == 'ci':
            return c[1]
        if k == 'cf':
            return self.t.const(c[1])
        if k == 'null':
            return NULL
        if k == 'g':
            f = self.prog.find(mod, c[1])
            if f is not None:
                return Fn(f.name if not f.internal else mod.name + ':' + f.name, f)
            if c[1] in mod.globals or c[1] in self.prog.glob:
                return self.global_ptr(mod, c[1])
            return Fn(c[1], None)
        if k == 'undef':
            return U(('operand',) + tuple(self.curloc()[:2]))
        if k == 'zero':
            t = mod.resolve(ty)
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'f':
                return self.t.const(0.0)
            if t[0] == 'struct':
                return Agg(self.const_val(('zero',), f, mod) for f in t[2])
            if t[0] == 'arr':
                return Agg(self.const_val(('zero',), t[2], mod) for _ in range(t[1]))
            return 0
        if k == 'cgep':
            return self.gep(self.const_val(c[2], ('ptr',), mod), c[1], [(t, self.const_val(v, t, mod)) for t, v in c[3]], mod)
        if k == 'ccast':
            return self.const_val(c[3], c[2], mod)
        if k == 'agg':
            return Agg(self.const_val(v, t, mod) for t, v in c[1])
        raise Undecided('const %r' % (c,))

    # ---------- pointers
    def padd(self, p, n):
        if type(p) is Ptr:
            if type(n) is int and type(p.off) is int:
                return Ptr(p.obj, p.off + n)
            if type(n) is int and n == 0:
                return p
            return Ptr(p.obj, self.sadd(p.off, n))
        if type(p) is U:
            return p
        if type(p) is Fn:
            return p
        if type(p) is int and p == 0:
            return Ptr(None, n)
        raise Undecided('padd %r %r' % (p, n))

    def sadd(self, a, b):
        return self.t.bin('+', self.as_term(a), self.as_term(b))

    def gep(self, base, sty, idx, mod):
        off = 0
        cur = sty
        B = self.B
        const = 0
        dyn = []
        for i, (it, v) in enumerate(idx):
            if i == 0:
                st = mod.size(sty)
            else:
                r = mod.resolve(cur)
                if r[0] == 'struct':
                    const += mod.layout(cur)[2][v]
                    cur = r[2][v]
                    continue
                cur = r[2]
                st = mod.size(cur)
            if type(v) is int:
                w = it[1]
                if v >= 1 << (w - 1):
                    v -= 1 << w
                const += v * st
            else:
                dyn.append((v, st, it[1]))
        p = base
        if const:
            if type(p) is Ptr and type(p.off) is int:
                p = Ptr(p.obj, p.off + const)
            elif type(p) is Node:
                p = B.apply1(('padd', const), lambda x: self.padd(x, const), p)
            else:
                p = self.padd(p, const)
        for v, st, w in dyn:
            if type(v) is T:
                s = self.t.bin('*', v, self.t.const(float(st)))
                if type(p) is Node:
                    p = B.map1(lambda x: self.padd(x, s), p)
                else:
                    p = self.padd(p, s)
            elif type(v) is U:
                self.report('uninit', 'index computed from an uninitialised value')
                return U(('gep', v.what))
            else:
                def f(x, y, st=st, w=w):
                    if type(y) is U:
                        return U(('gep', y.what))
                    if y >= 1 << (w - 1):
                        y -= 1 << w
                    return self.padd(x, y * st)
                p = B.apply2(('pidx', st, w), f, p, v)
        return p

    # ---------- memory
    def check_access(self, p, size, pc, write):
        """p: terminal pointer accessed under condition pc (already includes cond)"""
        B = self.B
        o = p.obj
        self.counts['derefs'] += 1
        if not (type(o.freed) is int and o.freed == 0):
            bad = B.AND(pc, o.freed)
            if not (type(bad) is int and bad == 0):
                if o.kind == 'stack':
                    self.report('dangling', 'access to a local variable after its function returned (%s)' % o.name, bad)
                else:
                    self.report('use-after-free', '%s of storage allocated at %s after it was released%s' % (
                        'write' if write else 'read', fmtloc(o.site),
                        (' at ' + ', '.join(fmtloc(x) for x in o.freesites[:3])) if o.freesites else ''), bad)
        if type(p.off) is int:
            if o.size is not None and type(o.size) is int and (p.off < 0 or p.off + size > o.size):
                self.report('out-of-bounds', '%s at offset %d size %d of object %s of %d bytes' % (
                    'write' if write else 'read', p.off, size, o.name, o.size), pc)
                return False
        return True

    def load(self, p, ty, mod, pc):
        size = mod.size(ty)
        t = mod.resolve(ty)
        if t[0] == 'struct':
            return Agg(self.load(self.gep(p, ('i', 8), [(('i', 64), o)], mod), f, mod, pc)
                       for o, f in zip(mod.layout(ty)[2], t[2]))
        if t[0] == 'arr':
            es = mod.size(t[2])
            return Agg(self.load(self.gep(p, ('i', 8), [(('i', 64), k * es)], mod), t[2], mod, pc) for k in range(t[1]))
        if type(p) is Node:
            p = self.B.restrict(p, pc)
        if type(p) is not Node:
            return self.load1(p, t, size, pc, mod)
        leaves = self.B.leaves(p)
        B = self.B
        vals = {}
        for lf in leaves:
            c = B.AND(pc, B.is_leaf(p, lf))
            if type(c) is int and c == 0:
                vals[lf] = U(('unreachable',)) if t[0] != 'f' else self.t.mk('undef', 'unreachable')
                continue
            vals[lf] = self.simp(self.load1(lf, t, size, c, mod), c)
        memo = {}

        def rec(x):
            if type(x) is not Node:
                return vals[x]
            r = memo.get(x.uid)
            if r is None:
                r = self.vite(B.mk(x.var, 1, 0), rec(x.hi), rec(x.lo))
                memo[x.uid] = r
            return r
        return self.simp(rec(p), pc)

    def undef_of(self, t, what):
        if t[0] == 'f':
            return self.t.mk('undef', what)
        return U(what)

    def load1(self, p, t, size, pc, mod):
        if type(p) is not Ptr:
            if type(p) is U:
                self.report('uninit', 'dereference of an uninitialised pointer', pc)
                return self.undef_of(t, ('deref', p.what))
            if type(p) is T:
                self.report('wild', 'dereference of non-pointer', pc)
                return self.undef_of(t, ('wild', p.uid))
            self.report('wild', 'dereference of %r' % (p,), pc)
            return self.undef_of(t, ('wild', str(p)))
        if p.obj is None:
            self.report('null-deref', 'read through a null pointer', pc)
            return self.undef_of(t, ('null',) + tuple(self.curloc()[:2]))
        o = p.obj
        if not self.check_access(p, size, pc, False):
            return self.undef_of(t, ('oob',) + tuple(self.curloc()[:2]))
        if o.kind == 'global' and not o.meta['const']:
            self.read_globals.setdefault(o.name, self.repo_loc())
        if o.arr is not None:
            r = o.arr(self, o, p.off, t, pc)
            if r is not None:
                return r
        if type(p.off) is T:
            raise Undecided('symbolic offset read')
        v = o.cells.get(p.off)
        if v is None:
            for lo, hi, val, fpc in reversed(o.fills):
                if lo <= p.off and p.off + size <= hi:
                    if callable(val):
                        v = val(p.off, t)
                    else:
                        v = val
                        if v == 0:
                            v = NULL if t[0] == 'ptr' else self.t.const(0.0) if t[0] == 'f' else 0
                    if type(fpc) is int and fpc == 1:
                        break
            if v is None:
                if o.kind == 'global' and o.meta.get('ext'):
                    if o.name.endswith('__libc_single_threaded'):
                        return 1
                    return self.t.sym('extern:' + o.name) if t[0] == 'f' else U(('extern', o.name))
                # wider cell containing it?
                for b in range(1, 8):
                    w = o.cells.get(p.off - b)
                    if w is not None and o.csz[p.off - b] > b and type(w) is int:
                        v = (w >> (8 * b)) & ((1 << (8 * size)) - 1)
                        break
                if v is None:
                    return self.undef_of(t, (o.kind, o.name, p.off, fmtloc(o.site) if o.site else ''))
        elif o.csz[p.off] != size:
            cs = o.csz[p.off]
            if type(v) is int and cs > size:
                v = v & ((1 << (8 * size)) - 1)
            elif type(v) is int and cs < size:
                # assemble bytes
                r = 0
                k = 0
                ok = True
                while k < size:
                    w = o.cells.get(p.off + k)
                    if type(w) is not int:
                        ok = False
                        break
                    r |= w << (8 * k)
                    k += o.csz[p.off + k]
                if ok:
                    v = r
            elif cs < size:
                # copy of several small cells as one word: keep as opaque packed value
                parts = []
                k = 0
                while k < size:
                    w = o.cells.get(p.off + k)
                    s = o.csz.get(p.off + k, 1)
                    parts.append((k, s, w))
                    k += s
                return Packed.make(parts)
        if t[0] == 'f':
            if type(v) is not T:
                v = self.as_double(v)
            return self.t.simp(v, pc) if v.op == 'sel' else v
        if t[0] == 'ptr':
            if type(v) is int and v == 0:
                v = NULL
            if type(v) is Node:
                v = self.B.restrict(v, pc)
                if any(type(x) is int for x in self.B.leaves(v)):
                    v = self.B.map1(lambda x: NULL if type(x) is int and x == 0 else x, v)
            return v
        return self.simp(v, pc)

    def store(self, p, v, size, pc):
        if type(p) is Node:
            p = self.B.restrict(p, pc)
        if type(p) is not Node:
            self.store1(p, v, size, pc)
            return
        for lf in self.B.leaves(p):
            c = self.B.AND(pc, self.B.is_leaf(p, lf))
            self.store1(lf, v, size, c)

    def store1(self, p, v, size, pc):
        if type(p) is not Ptr or p.obj is None:
            if type(p) is Ptr:
                self.report('null-deref', 'write through a null pointer', pc)
            elif type(p) is U:
                self.report('uninit', 'write through an uninitialised pointer', pc)
            else:
                self.report('wild', 'write through %r' % (p,), pc)
            return
        o = p.obj
        if not self.check_access(p, size, pc, True):
            return
        if o.kind == 'global':
            self.written_globals.setdefault(o.name, self.repo_loc())
        if type(p.off) is T:
            raise Undecided('symbolic offset write')
        if type(v) is Packed:
            for k, s, w in v.parts:
                if w is not None:
                    self.put(o, p.off + k, s, w, pc)
            return
        self.put(o, p.off, size, v, pc)

    def put(self, o, off, size, v, pc):
        if self.born is not None and (o.seq is None or self.seq0 < o.seq <= self.born):
            k = (o.name if o.seq is None else o.seq - self.seq0, off)
            e = self.pwrites.get(k)
            if e is None:
                e = self.pwrites[k] = [size, [], self.repo_loc(), o]
            e[1].append(v)
        cells = o.cells
        csz = o.csz
        full = pc is o.birth or (type(pc) is int and type(o.birth) is int)
        if not full:
            c = self.gate(pc, o.birth)
            full = type(c) is int and c == 1
        old = cells.get(off)
        if old is not None and csz[off] != size and full:
            s = csz[off]
            if type(old) is Packed or s > size:
                pass
        for k in range(off - 7, off + size):
            if k != off and k in csz and k + csz[k] > off:
                if k >= off or True:
                    if full:
                        del cells[k]; del csz[k]
        if full:
            cells[off] = v
        else:
            if old is None:
                # value before: uninitialised or fill
                old = None
                for lo, hi, val, fpc in reversed(o.fills):
                    if lo <= off and off + size <= hi and not callable(val):
                        old = val
                        if type(v) is T:
                            old = self.t.const(0.0)
                        elif self.is_ptrish(v):
                            old = NULL
                        break
                if old is None:
                    old = U((o.kind, o.name, off, fmtloc(o.site) if o.site else ''))
            cells[off] = self.vite(c, v, old)
        csz[off] = size

    def is_ptrish(self, v):
        if type(v) is Ptr or type(v) is Fn:
            return True
        if type(v) is Node:
            return any(type(x) in (Ptr, Fn) for x in self.B.leaves(v))
        return False

    def memcpy(self, d, s, n, pc):
        B = self.B
        if type(n) is Node:
            n = B.restrict(n, pc)
        d = self.simp(d, pc) if type(d) is Node else d
        s = self.simp(s, pc) if type(s) is Node else s
        if type(d) is Node or type(s) is Node or type(n) is Node:
            # joint enumeration
            comb = B.apply2('pair', lambda x, y: (x, y), d, s)
            comb = B.apply2('pair3', lambda x, y: (x[0], x[1], y), comb, n)
            comb = B.restrict(comb, pc)
            for lf in B.leaves(comb):
                c = B.AND(pc, B.is_leaf(comb, lf))
                if type(c) is int and c == 0:
                    continue
                self.memcpy1(lf[0], lf[1], lf[2], c)
            return
        self.memcpy1(d, s, n, pc)

    def memcpy1(self, d, s, n, pc):
        if type(n) is T:
            raise Undecided('symbolic memcpy size')
        if type(n) is U:
            self.report('uninit', 'memcpy with uninitialised size', pc)
            return
        if n == 0:
            return
        for p, w in ((d, True), (s, False)):
            if type(p) is not Ptr or p.obj is None:
                self.report('null-deref' if type(p) is Ptr else 'uninit', 'copy %s invalid pointer' % ('to' if w else 'from'), pc)
                return
            if not self.check_access(p, n, pc, w):
                return
        if d.obj.kind == 'global':
            self.written_globals.setdefault(d.obj.name, self.repo_loc())
        so = s.obj
        if so.arr is not None:
            r = so.arr(self, so, s.off, ('copy', d, n), pc)
            if r is not None:
                return
        if type(s.off) is not int or type(d.off) is not int:
            raise Undecided('symbolic memcpy')
        offs = [k for k in so.cells if s.off <= k < s.off + n]
        fills = [(max(lo, s.off), min(hi, s.off + n), val, fpc) for lo, hi, val, fpc in so.fills if lo < s.off + n and hi > s.off]
        items = [(k - s.off + d.off, so.csz[k], so.cells[k]) for k in offs]
        do = d.obj
        full = self.is_full(pc, do)
        # destination cells in range not overwritten become uninitialised copies (or filled)
        newoffs = {k for k, _, _ in items}
        for k in [k for k in do.cells if d.off <= k < d.off + n and k not in newoffs]:
            if full:
                del do.cells[k]; del do.csz[k]
            else:
                sz = do.csz[k]
                fv = None
                for lo, hi, val, fpc in fills:
                    if lo - s.off + d.off <= k and not callable(val):
                        fv = val
                v = fv if fv is not None else U(('copy', so.name, k - d.off + s.off))
                if fv == 0 and type(do.cells[k]) is T:
                    v = self.t.const(0.0)
                elif fv == 0 and self.is_ptrish(do.cells[k]):
                    v = NULL
                self.put(do, k, sz, v, pc)
        for lo, hi, val, fpc in fills:
            do.fills.append((lo - s.off + d.off, hi - s.off + d.off, val, pc if not full else 1))
        for k, sz, v in items:
            self.put(do, k, sz, self.simp(v, pc), pc)

    def is_full(self, pc, o):
        if pc is o.birth:
            return True
        c = self.gate(pc, o.birth)
        return type(c) is int and c == 1

    def memset(self, d, val, n, pc):
        d = self.simp(d, pc)
        n = self.simp(n, pc)
        if type(d) is Node or type(n) is Node:
            comb = self.B.restrict(self.B.apply2('pair', lambda x, y: (x, y), d, n), pc)
            for lf in self.B.leaves(comb):
                c = self.B.AND(pc, self.B.is_leaf(comb, lf))
                self.memset(lf[0], val, lf[1], c)
            return
        if type(d) is not Ptr or d.obj is None:
            if n == 0:
                return
            self.report('null-deref', 'memset of invalid pointer', pc)
            return
        if type(n) is not int or type(val) is not int:
            raise Undecided('memset')
        if n == 0:
            return
        if not self.check_access(d, n, pc, True):
            return
        o = d.obj
        full = self.is_full(pc, o)
        for k in [k for k in o.cells if d.off <= k < d.off + n]:
            if full:
                del o.cells[k]; del o.csz[k]
            else:
                old = o.cells[k]
                z = self.t.const(0.0) if type(old) is T else NULL if self.is_ptrish(old) else 0
                self.put(o, k, o.csz[k], z, pc)
        full_val = val
        if val != 0:
            full_val = int.from_bytes(bytes([val]) * 8, 'little')
            o.fills.append((d.off, d.off + n, lambda off, t: int.from_bytes(bytes([val]) * 8, 'little') if t[0] != 'i' else int.from_bytes(bytes([val]) * 8, 'little') & ((1 << t[1]) - 1), pc if not full else 1))
        else:
            o.fills.append((d.off, d.off + n, 0, pc if not full else 1))

    def malloc(self, n, pc, kind):
        self.counts['allocs'] += 1
        lo = self.repo_loc()
        self.nobj += 1
        nm = 'heap@%s' % fmtloc(lo)
        o = Obj(self.nobj, n if type(n) is int else None, 'heap', pc, nm, lo)
        o.freekind = kind
        o.stack = tuple(self.callpath())
        self.nseq += 1
        o.seq = self.nseq
        if self.new_hook:
            self.new_hook(o)
        self.heap.append(o)
        return Ptr(o, 0)

    def free(self, p, pc, kind):
        self.counts['frees'] += 1
        if type(p) is Node:
            p = self.B.restrict(p, pc)
        for lf in self.B.leaves(p):
            if type(lf) is Ptr and lf.obj is None:
                continue
            if type(lf) is int and lf == 0:
                continue
            c = self.B.AND(pc, self.B.is_leaf(p, lf)) if type(p) is Node else pc
            if type(lf) is not Ptr:
                self.report('bad-free', 'release of an uninitialised pointer' if type(lf) is U else 'release of %r' % (lf,), c)
                continue
            o = lf.obj
            if o.kind != 'heap' or lf.off != 0:
                self.report('bad-free', 'release of a pointer that does not own heap storage (%r)' % (lf,), c)
                continue
            if o.freekind != kind:
                self.report('bad-free', 'mismatched release: allocated with %s, released with %s (allocated at %s)' % (o.freekind, kind, fmtloc(o.site)), c)
            dbl = self.B.AND(c, o.freed)
            if not (type(dbl) is int and dbl == 0):
                self.report('double-free', 'storage allocated at %s may be released twice' % fmtloc(o.site), dbl)
            o.freed = self.B.OR(o.freed, c)
            o.freesites.append(self.repo_loc())

    def leaks(self, since=0, pc=1):
        out = []
        for o in self.heap[since:]:
            l = self.B.AND(pc, self.B.AND(o.birth, self.B.NOT(o.freed)))
            if not (type(l) is int and l == 0):
                out.append((o, l))
        return out

    # ---------- how path conditions arose: gates are the branch conditions taken, not whatever restrict() leaves of them
    def derive(self, p, parent, c):
        if type(p) is Node and p is not parent and p.uid not in self.deriv:
            self.deriv[p.uid] = (parent, c)

    def chain(self, p, top=None, lim=60):
        """ancestors of a path condition with the conjunction of conditions that leads from each to p"""
        out = [(p, 1)]
        c = 1
        while lim and type(p) is Node and p is not top:
            d = self.deriv.get(p.uid)
            if d is None:
                break
            c = self.B.AND(d[1], c)
            p = d[0]
            out.append((p, c))
            lim -= 1
        return out

    def derive_join(self, p, parts):
        if type(p) is not Node or p.uid in self.deriv:
            return
        chains = [dict(((x.uid if type(x) is Node else x), (x, c)) for x, c in self.chain(q, lim=25)) for q in parts]
        for k, (x, c) in chains[0].items():
            if x is not p and all(k in ch for ch in chains[1:]):
                r = c
                for ch in chains[1:]:
                    r = self.B.OR(r, ch[k][1])
                self.deriv[p.uid] = (x, r)
                return

    def gate(self, p, base):
        """a condition g with (base and g) == p, for p implying base"""
        if p is base or type(p) is int:
            return self.B.restrict(p, base)
        k = (p.uid, base.uid if type(base) is Node else base)
        r = self.gates.get(k)
        if r is None:
            r = self.B.restrict(p, base)
            if type(r) is Node and type(base) is Node:
                x, c = self.chain(p, base)[-1]
                if x is base:
                    r = c
            self.gates[k] = r
        return r

    # ---------- functions
    def call(self, f, args, pc, site=None):
        f.parse()
        if len(self.stack) > 200:
            raise Undecided('recursion')
        self.fns_seen[f.name] = self.fns_seen.get(f.name, 0) + 1
        self.counts['calls'] += 1
        fr = Frame()
        fr.fn = f
        fr.regs = {}
        fr.multi = set()
        fr.bpc = {}
        fr.allocas = []
        for (t, nm), v in zip(f.params, args):
            fr.regs[nm] = v
        blocks = f.blocks
        pend = {f.entry: [(pc, None, None)]}
        heap = [(0, f.entry)]
        rets = []
        iters = {}
        B = self.B
        try:
            while heap:
                _, bn = heapq.heappop(heap)
                inc = pend.pop(bn, None)
                if inc is None:
                    continue
                blk = blocks[bn]
                bpc = 0
                for e in inc:
                    bpc = B.OR(bpc, e[0])
                if type(bpc) is int and bpc == 0:
                    continue
                if len(inc) > 1:
                    self.derive_join(bpc, [e[0] for e in inc])
                prev = fr.bpc.get(bn)
                multi = prev is not None and prev is not bpc
                if blk.loophead:
                    if not any(e[1] is not None and blocks[e[1]].order >= blk.order for e in inc):
                        iters[bn] = 0
                        iters[(bn, 's')] = 0
                    n = iters.get(bn, 0) + 1
                    iters[bn] = n
                    if n > self.loop_limit:
                        raise Undecided('loop limit in %s' % self.prog.short(f.name))
                    if multi and n > 1:
                        k = iters.get((bn, 's'), 0) + 1
                        iters[(bn, 's')] = k
                        if self.unroll is not None and k > self.unroll:
                            self.cuts[(f.name, bn)] = self.B.OR(self.cuts.get((f.name, bn), 0), bpc)
                            continue
                        if k > self.sym_limit:
                            raise Undecided('loop with undecidable trip count in %s' % self.prog.short(f.name))
                fr.bpc[bn] = bpc
                self.counts['blocks'] += 1
                # phis
                if blk.phis:
                    newv = []
                    for i, ph in enumerate(blk.phis):
                        v = inc[0][2][i]
                        for e in inc[1:]:
                            c = self.gate(e[0], bpc)
                            v = self.vite(c, e[2][i], v)
                        newv.append(v)
                    for ph, v in zip(blk.phis, newv):
                        self.setreg(fr, ph.res, v, bpc, prev, multi)
                self.exec_block(fr, blk, bpc, prev, multi, pend, heap, rets)
        finally:
            pass
        for o in fr.allocas:
            o.freed = 1
            o.cells = {}
            o.csz = {}
        if not rets:
            self.last_ret_pc = 0
            return None
        # merge returns
        v = rets[0][1]
        if len(rets) > 1:
            tot = 0
            for c, _ in rets:
                tot = B.OR(tot, c)
            self.derive_join(tot, [c for c, _ in rets])
            for c, x in rets[1:]:
                if x is not None:
                    v = self.vite(self.gate(c, tot), x, v)
        tot = 0
        for c, _ in rets:
            tot = B.OR(tot, c)
        self.last_ret_pc = tot
        return v

    def setreg(self, fr, name, v, pc, prev, multi):
        if multi or name in fr.multi:
            old = fr.regs.get(name)
            if old is not None:
                v = self.vite(pc, v, old)
                fr.multi.add(name)
        fr.regs[name] = v

    def val(self, fr, c, ty, pc):
        k = c[0]
        if k == 'reg':
            v = fr.regs[c[1]]
            if fr.multi and c[1] in fr.multi:
                v = self.simp(v, pc)
            return v
        if k == 'ci':
            return c[1]
        if k == 'cf':
            return self.t.const(c[1])
        return self.const_val(c, ty, fr.fn.mod)

    def edge(self, fr, frm, to, pc, pend, heap):
        if type(pc) is int and pc == 0:
            return
        blk = fr.fn.blocks[to]
        pv = None
        if blk.phis:
            pv = []
            for ph in blk.phis:
                for v, b in ph.a:
                    if b == frm:
                        pv.append(self.val(fr, v, ph.ty, pc))
                        break
                else:
                    raise Undecided('phi')
            # typed undef
            pv = [self.as_double(x) if ph.ty == ('f', 64) and type(x) is not T else x for x, ph in zip(pv, blk.phis)]
        l = pend.get(to)
        if l is None:
            pend[to] = [(pc, frm, pv)]
            heapq.heappush(heap, (blk.order, to))
        else:
            l.append((pc, frm, pv))

    def exec_block(self, fr, blk, pc, prev, multi, pend, heap, rets):
        B = self.B
        tm = self.t
        mod = fr.fn.mod
        val = self.val
        regs = fr.regs
        cnt = self.counts
        for ins in blk.ins:
            self.cur = ins
            cnt['instr'] += 1
            op = ins.op
            a = ins.a
            if op == 'load':
                p = val(fr, a[0], None, pc)
                r = self.load(p, ins.ty, mod, pc)
            elif op == 'store':
                v = val(fr, a[0], ins.ty, pc)
                if ins.ty[0] == 'f' and type(v) is not T:
                    v = self.as_double(v)
                p = val(fr, a[1], None, pc)
                if type(v) is Agg:
                    self.store_agg(p, v, ins.ty, mod, pc)
                else:
                    self.store(p, v, mod.size(ins.ty), pc)
                continue
            elif op == 'getelementptr':
                p = val(fr, a[1], None, pc)
                r = self.gep(p, a[0], [(t, val(fr, v, t, pc)) for t, v in a[2]], mod)
            elif op == 'call' or op == 'invoke':
                npc = self.do_call(fr, ins, pc)
                r = npc[0]
                pc2 = npc[1]
                if op == 'invoke':
                    if ins.res is not None:
                        self.setreg(fr, ins.res, r, pc, prev, multi)
                    if not (type(pc2) is int and pc2 == 0):
                        self.edge(fr, blk.name, a[3], pc2, pend, heap)
                    return
                if pc2 is not pc:
                    pc = pc2
                    if type(pc) is int and pc == 0:
                        return
                if ins.res is None:
                    continue
            elif op == 'alloca':
                n = val(fr, a[0], ('i', 32), pc)
                sz = mod.size(ins.ty) * (n if type(n) is int else 1)
                o = self.new_obj(sz, 'stack', pc, '%s:%%%s' % (self.prog.short(fr.fn.name).split('(')[0][-50:], ins.res))
                fr.allocas.append(o)
                r = Ptr(o, 0)
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                x = val(fr, a[0], ins.ty, pc)
                y = val(fr, a[1], ins.ty, pc)
                if type(x) is not T:
                    x = self.as_double(x)
                if type(y) is not T:
                    y = self.as_double(y)
                r = tm.bin({'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op], x, y)
                if op == 'fdiv' and r.op == '/' and r.aux is None:
                    r.aux = ins
            elif op == 'fneg':
                x = val(fr, a[0], ins.ty, pc)
                r = tm.un('neg', self.as_double(x))
            elif op == 'fcmp':
                x = self.as_double(val(fr, a[1], ins.ty, pc))
                y = self.as_double(val(fr, a[2], ins.ty, pc))
                pr = a[0]
                if pr == 'true':
                    r = 1
                elif pr == 'false':
                    r = 0
                elif pr == 'ord':
                    r = 1
                elif pr == 'uno':
                    r = 0
                else:
                    x = tm.simp(x, pc); y = tm.simp(y, pc)
                    if self.fcmp_hook:
                        self.fcmp_hook(pr, x, y, pc)
                    r = tm.cmp(FCMP[pr], x, y)
            elif op == 'icmp':
                x = val(fr, a[1], ins.ty, pc)
                y = val(fr, a[2], ins.ty, pc)
                r = self.icmp(a[0], x, y, ins.ty)
            elif op == 'br':
                if a[0] is None:
                    self.edge(fr, blk.name, a[1], pc, pend, heap)
                    return
                cnt['branches'] += 1
                c = val(fr, a[0], ('i', 1), pc)
                if type(c) is U:
                    self.report('uninit', 'branch on an uninitialised value', pc)
                c = self.as_bool(c)
                if type(c) is int:
                    self.edge(fr, blk.name, a[1] if c else a[2], pc, pend, heap)
                    return
                nc = B.NOT(c)
                p1, p2 = B.AND(pc, c), B.AND(pc, nc)
                self.derive(p1, pc, c)
                self.derive(p2, pc, nc)
                self.edge(fr, blk.name, a[1], p1, pend, heap)
                self.edge(fr, blk.name, a[2], p2, pend, heap)
                return
            elif op == 'switch':
                cnt['branches'] += 1
                c = self.simp(val(fr, a[0], ins.ty, pc), pc)
                if type(c) is U:
                    self.report('uninit', 'switch on an uninitialised value', pc)
                rest = pc
                tgt = {}
                for cv, lab in a[2]:
                    cc = self.as_bool(self.icmp('eq', c, cv, ins.ty))
                    e = B.AND(pc, cc)
                    rest = B.AND(rest, B.NOT(cc))
                    tgt[lab] = B.OR(tgt.get(lab, 0), e)
                tgt[a[1]] = B.OR(tgt.get(a[1], 0), rest)
                for lab, e in tgt.items():
                    self.edge(fr, blk.name, lab, e, pend, heap)
                return
            elif op == 'ret':
                if a[0] is None:
                    rets.append((pc, None))
                else:
                    v = val(fr, a[0], ins.ty, pc)
                    if ins.ty[0] == 'f' and type(v) is not T:
                        v = self.as_double(v)
                    rets.append((pc, v))
                return
            elif op == 'unreachable':
                return
            elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
                if op == 'freeze':
                    r = val(fr, a[0], ins.ty, pc)
                else:
                    x = val(fr, a[1], a[0], pc)
                    r = self.cast(op, a[0], ins.ty, x)
            elif op in ('sitofp', 'uitofp'):
                x = val(fr, a[1], a[0], pc)
                r = self.itof(x, a[0][1], op == 'sitofp')
            elif op in ('fptosi', 'fptoui'):
                x = val(fr, a[1], a[0], pc)
                r = self.ftoi(self.as_double(x), ins.ty[1])
            elif op in ('fpext', 'fptrunc'):
                r = val(fr, a[1], a[0], pc)
            elif op == 'select':
                c = self.as_bool(val(fr, a[0], ('i', 1), pc))
                x = val(fr, a[1], ins.ty, pc); y = val(fr, a[2], ins.ty, pc)
                if ins.ty[0] == 'f':
                    x = self.as_double(x); y = self.as_double(y)
                r = self.vite(c, x, y)
            elif op == 'extractvalue':
                x = val(fr, a[0], ins.ty, pc)
                for i in a[1]:
                    x = x[i] if type(x) is Agg else U(('agg',) + tuple(self.curloc()[:2]))
                r = x
            elif op == 'insertvalue':
                x = val(fr, a[0], ins.ty, pc)
                e = val(fr, a[2], a[1], pc)
                r = self.insv(x, e, a[3], mod.resolve(ins.ty), mod)
            elif op == 'fence':
                continue
            elif op == 'atomicrmw' and (a[0] == 'xchg' or a[0] in INTOPS):
                # one thread: the operation is a load and a store
                p = val(fr, a[1], None, pc)
                r = self.load(p, ins.ty, mod, pc)
                y = val(fr, a[2], ins.ty, pc)
                self.store(p, y if a[0] == 'xchg' else self.intop(a[0], r, y, ins.ty[1]), mod.size(ins.ty), pc)
            elif op in INTOPS:
                x = val(fr, a[0], ins.ty, pc); y = val(fr, a[1], ins.ty, pc)
                r = self.intop(op, x, y, ins.ty[1])
            elif op == 'landingpad':
                r = U(('lp',))
            elif op == 'frem':
                x = self.as_double(val(fr, a[0], ins.ty, pc)); y = self.as_double(val(fr, a[1], ins.ty, pc))
                r = tm.mk('fmod', x, y)
            else:
                raise Undecided('instruction %s' % op)
            if ins.res is not None:
                if multi or fr.multi:
                    self.setreg(fr, ins.res, r, pc, prev, multi)
                else:
                    regs[ins.res] = r
        raise Undecided('fallthrough')

    def insv(self, x, e, idx, ty, mod):
        n = len(ty[2]) if ty[0] == 'struct' else ty[1]
        l = list(x) if type(x) is Agg else [U(('agg',))] * n
        if len(idx) == 1:
            l[idx[0]] = e
        else:
            sub = mod.resolve(ty[2][idx[0]] if ty[0] == 'struct' else ty[2])
            l[idx[0]] = self.insv(l[idx[0]], e, idx[1:], sub, mod)
        return Agg(l)

    def store_agg(self, p, v, ty, mod, pc):
        t = mod.resolve(ty)
        if t[0] == 'struct':
            offs = mod.layout(ty)[2]
            for e, et, o in zip(v, t[2], offs):
                self.store_agg(self.gep(p, ('i', 8), [(('i', 64), o)], mod), e, et, mod, pc)
        elif t[0] == 'arr':
            es = mod.size(t[2])
            for i, e in enumerate(v):
                self.store_agg(self.gep(p, ('i', 8), [(('i', 64), i * es)], mod), e, t[2], mod, pc)
        else:
            self.store(p, v, mod.size(ty), pc)

    # ---------- integer operations
    def cast(self, op, st, dt, x):
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            return x
        sb, db = st[1], dt[1]

        def f(v):
            if type(v) is U or type(v) is T or type(v) is Ptr or type(v) is Packed:
                if op == 'trunc' and db == 1 and type(v) is U:
                    return v
                return v
            if op == 'trunc':
                return v & ((1 << db) - 1)
            if op == 'sext' and v >> (sb - 1) & 1:
                return v | (((1 << db) - 1) ^ ((1 << sb) - 1))
            return v
        if type(x) is Node:
            return self.B.apply1((op, sb, db), f, x)
        return f(x)

    def itof(self, x, w, signed):
        def f(v):
            if type(v) is int:
                if signed and v >> (w - 1):
                    v -= 1 << w
                return self.t.const(float(v))
            if type(v) is T:
                if v.op == 'f2i' and v.args[0].op in ('ceil', 'floor', 'trunc'):
                    return v.args[0]
                return self.t.mk('i2f', v)
            return self.as_term(v)
        if type(x) is Node:
            memo = {}

            def rec(n):
                if type(n) is not Node:
                    return f(n)
                r = memo.get(n.uid)
                if r is None:
                    r = self.t.sel(self.B.mk(n.var, 1, 0), rec(n.hi), rec(n.lo))
                    memo[n.uid] = r
                return r
            return rec(x)
        return f(x)

    def ftoi(self, t, w):
        if t.op == 'c':
            return int(t.args[0]) & ((1 << w) - 1)
        if self.t.allconst(t):
            def rec(x):
                if x.op == 'c':
                    return int(x.args[0]) & ((1 << w) - 1)
                return self.B.ite(x.args[0], rec(x.args[1]), rec(x.args[2]))
            return rec(t)
        return self.t.mk('f2i', t)

    def intop(self, op, x, y, w):
        if type(x) is int and type(y) is int:
            return int2(op, x, y, w)
        if w == 1 and op in ('and', 'or', 'xor'):
            x = self.as_bool(x); y = self.as_bool(y)
            if op == 'and':
                return self.B.AND(x, y)
            if op == 'or':
                return self.B.OR(x, y)
            return self.B.ite(x, self.B.NOT(y), y)
        if type(x) is T or type(y) is T:
            if type(x) is U or type(y) is U:
                pass
            return self.intterm(op, x, y)

        def f(p, q):
            if type(p) is Ptr or type(q) is Ptr:
                if op == 'sub':
                    if type(p) is Ptr and type(q) is Ptr:
                        if p.obj is q.obj:
                            if type(p.off) is int and type(q.off) is int:
                                return (p.off - q.off) & ((1 << w) - 1)
                            return self.intterm('sub', self.as_term(p.off), self.as_term(q.off))
                        return U(('ptrdiff',) + tuple(self.curloc()[:2]))
                    if type(q) is int:
                        return self.padd(p, -q)
                if op == 'add':
                    return self.padd(p, q) if type(p) is Ptr else self.padd(q, p)
                if op == 'and' and type(q) is int:
                    return U(('ptrbits',))
                return U(('ptrop',))
            if type(p) is U or type(q) is U:
                return p if type(p) is U else q
            if type(p) is T or type(q) is T:
                return U(('mix',))
            return int2(op, p, q, w)
        if type(x) is Node or type(y) is Node:
            return self.B.apply2(('io', op, w), f, x, y)
        return f(x, y)

    def intterm(self, op, x, y):
        x = self.as_term(x); y = self.as_term(y)
        m = {'add': '+', 'sub': '-', 'mul': '*', 'sdiv': 'idiv', 'udiv': 'idiv', 'srem': 'irem', 'urem': 'irem'}.get(op, op)
        if m in '+-*':
            return self.t.bin(m, x, y)
        if m == 'idiv' and y.op == 'c' and x.op == '*' and x.args[1] is y:
            return x.args[0]
        return self.t.mk('i' + op, x, y)

    def icmp(self, pred, x, y, ty):
        w = ty[1] if ty[0] == 'i' else 64
        if type(x) is int and type(y) is int:
            return icmp2(pred, x, y, w)
        if type(x) is T or type(y) is T:
            return self.icmpterm(pred, x, y)
        if type(x) is Node or type(y) is Node:
            if any(type(l) is T for l in self.B.leaves(x)) or any(type(l) is T for l in self.B.leaves(y)):
                return self.icmpterm(pred, x, y)

        def f(p, q):
            if type(p) is Ptr or type(q) is Ptr or type(p) is Fn or type(q) is Fn:
                if type(p) is int:
                    p = NULL if p == 0 else p
                if type(q) is int:
                    q = NULL if q == 0 else q
                if type(p) is U or type(q) is U:
                    return U(('cmp', (p if type(p) is U else q).what))
                if type(p) is Ptr and type(q) is Ptr and p.obj is q.obj:
                    if type(p.off) is int and type(q.off) is int:
                        return icmp2(pred, p.off & (2**64 - 1), q.off & (2**64 - 1), 64)
                    return U(('symptr',))
                if pred == 'eq':
                    return 1 if p == q else 0
                if pred == 'ne':
                    return 0 if p == q else 1
                # ordering of unrelated objects: by identity (unspecified by the language)
                a = p.obj.id if type(p) is Ptr and p.obj else 0
                b = q.obj.id if type(q) is Ptr and q.obj else 0
                return icmp2(pred, a, b, 64)
            if type(p) is U or type(q) is U:
                return U(('cmp', (p if type(p) is U else q).what))
            return icmp2(pred, p, q, w)
        if type(x) is Node or type(y) is Node:
            r = self.B.apply2(('ic', pred, w), f, x, y)
        else:
            if type(x) is Ptr and type(y) is Ptr and x.obj is y.obj and (type(x.off) is T or type(y.off) is T):
                return self.icmpterm(pred, self.as_term(x.off), self.as_term(y.off))
            r = f(x, y)
        return r

    def icmpterm(self, pred, x, y):
        x = self.as_term(x); y = self.as_term(y)
        m = {'eq': 'eq', 'ne': 'ne', 'slt': 'lt', 'ult': 'lt', 'sle': 'le', 'ule': 'le', 'sgt': 'gt', 'ugt': 'gt',
             'sge': 'ge', 'uge': 'ge'}[pred]
        if x.op != 'c' and y.op == 'c' and y.args[0] == int(y.args[0]):
            B, k = self.B, int(y.args[0])
            if m in ('gt', 'le'):
                r = self.above(x, k)
                return r if m == 'gt' else B.NOT(r)
            if m in ('ge', 'lt'):
                r = self.above(x, k - 1)
                return r if m == 'ge' else B.NOT(r)
            r = B.AND(self.above(x, k - 1), B.NOT(self.above(x, k)))
            return r if m == 'eq' else B.NOT(r)
        if x.op == 'c' and y.op != 'c':
            return self.icmpterm({'eq': 'eq', 'ne': 'ne', 'lt': 'sgt', 'le': 'sge', 'gt': 'slt', 'ge': 'sle'}[m], y, x)
        return self.t.cmp(m, x, y)

    def above(self, x, k):
        """k < x for an integer term x; thresholds on the same term are kept monotone"""
        lad = self.ladder.setdefault(x.uid, {})
        r = lad.get(k)
        if r is None:
            B = self.B
            r = self.t.cmp('lt', self.t.const(float(k)), x)
            hi = [j for j in lad if j > k]
            lo = [j for j in lad if j < k]
            if hi:
                r = B.OR(r, lad[min(hi)])
            if lo:
                r = B.AND(r, lad[max(lo)])
            lad[k] = r
        return r

    # ---------- calls
    def do_call(self, fr, ins, pc):
        """returns (value, pc after)"""
        a = ins.a
        mod = fr.fn.mod
        cal = a[0]
        if cal[0] == 'g':
            name = cal[1]
            if name.startswith('llvm.'):
                return self.intrinsic(fr, ins, name, pc), pc
            args = [self.val(fr, v, t, pc) for t, v in a[1]]
            args = [self.as_double(x) if t == ('f', 64) and type(x) is not T else x for x, (t, v) in zip(args, a[1])]
            return self.call_named(name, mod, args, ins, pc)
        # indirect
        fv = self.val(fr, cal, ('ptr',), pc)
        args = [self.val(fr, v, t, pc) for t, v in a[1]]
        args = [self.as_double(x) if t == ('f', 64) and type(x) is not T else x for x, (t, v) in zip(args, a[1])]
        if type(fv) is Node:
            fv = self.B.restrict(fv, pc)
        if type(fv) is Node:
            res = None
            tot = 0
            first = True
            for lf in self.B.leaves(fv):
                c = self.B.AND(pc, self.B.is_leaf(fv, lf))
                r, p2 = self.call_value(lf, args, ins, c, mod)
                res = r if first else self.vite(self.B.restrict(c, pc), r, res)
                first = False
                tot = self.B.OR(tot, p2)
            return res, tot
        return self.call_value(fv, args, ins, pc, mod)

    def call_value(self, fv, args, ins, pc, mod):
        if type(fv) is Fn:
            return self.call_named(fv.name.split(':')[-1], fv.f.mod if fv.f else mod, args, ins, pc)
        self.report('wild', 'call through %s' % ('null pointer' if fv == NULL else 'invalid function pointer'), pc)
        return U(('call',)), 0

    def stub_for(self, name):
        r = self.stubcache.get(name)
        if r is None:
            dem = self.prog.short(name)
            base = dem.split('(')[0]
            r = self.stubs.get(base) or self.stubs.get(name) or 0
            if r == 0 and '<' in base:
                b2 = re.sub(r'<.*', '', base).split(' ')[-1]
                r = self.stubs.get(b2 + '<>') or 0
            if r == 0 and base.startswith('std::vector<') and base.endswith('>::reserve') and not self.opts.get('keep_reserve'):
                r = lambda I, name, args, ins, pc: U('x')        # capacity only, no effect on contents
            self.stubcache[name] = r
        return r

    def call_named(self, name, mod, args, ins, pc):
        st = self.stub_for(name)
        if st:
            self.stack.append((None, ins))
            try:
                r = st(self, name, args, ins, pc)
            finally:
                self.stack.pop()
            if r is not NotImplemented:
                if type(r) is tuple and len(r) == 2 and r[0] == 'PC':
                    return None, r[1]
                return r, pc
        b = BUILTINS.get(name)
        if b is not None:
            return b(self, args, pc)
        f = self.prog.find(mod, name)
        if f is not None:
            self.stack.append((f, ins))
            try:
                r = self.call(f, args, pc, ins)
            finally:
                self.stack.pop()
            self.cur = ins
            return r, self.last_ret_pc
        return self.unknown(name, args, ins, pc)

    def unknown(self, name, args, ins, pc):
        dem = self.prog.short(name)
        if '__throw_' in dem or name in ('__cxa_throw', 'abort', '__assert_fail', '_ZSt9terminatev', '__cxa_rethrow', 'exit', '__cxa_bad_cast', '__cxa_throw_bad_array_new_length', '_ZSt17__throw_bad_allocv'):
            self.throws += 1
            self.note_throw(dem, pc)
            return None, 0
        if name not in self.unmodelled:
            self.unmodelled[name] = self.repo_loc()
        self.on_unknown(name, dem, args, pc)
        if ins.ty == ('f', 64):
            return self.t.mk('uf', dem, *[self.as_term(x) for x in args if type(x) in (T, int, Node)]), pc
        if ins.ty[0] == 'ptr':
            return (args[0] if args else U(('ext', dem))), pc
        return U(('ext', dem)), pc

    def on_unknown(self, name, dem, args, pc):
        pass

    def note_throw(self, dem, pc):
        pass

    def intrinsic(self, fr, ins, name, pc):
        a = ins.a
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d, s, n = [self.val(fr, v, t, pc) for t, v in a[1][:3]]
            self.memcpy(d, s, n, pc)
            return None
        if name.startswith('llvm.memset'):
            d, v, n = [self.val(fr, v, t, pc) for t, v in a[1][:3]]
            self.memset(d, v, n, pc)
            return None
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch')):
            return U(('intr',))
        args = [self.val(fr, v, t, pc) for t, v in a[1]]
        m = re.match(r'llvm\.(\w+)\.f64', name)
        if m:
            op = m.group(1)
            args = [self.as_double(x) for x in args]
            r = self.mathop(op, args)
            if r is not None:
                return r
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', name)
        if m:
            w = int(m.group(2))
            pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[m.group(1)]
            c = self.as_bool(self.icmp(pred, args[0], args[1], ('i', w)))
            return self.vite(c, args[0], args[1])
        if name.startswith('llvm.abs.'):
            w = ins.ty[1]
            c = self.as_bool(self.icmp('slt', args[0], 0, ('i', w)))
            return self.vite(c, self.intop('sub', 0, args[0], w), args[0])
        if name.startswith('llvm.objectsize'):
            return (1 << 64) - 1
        if name.startswith('llvm.expect') or name.startswith('llvm.launder') or name.startswith('llvm.strip'):
            return args[0]
        if name.startswith('llvm.is.constant'):
            return 0
        if name.startswith('llvm.trap'):
            return None
        m = re.match(r'llvm\.(\w+)\.with\.overflow\.i(\d+)', name)
        if m:
            op = {'umul': 'mul', 'smul': 'mul', 'uadd': 'add', 'sadd': 'add', 'usub': 'sub', 'ssub': 'sub'}[m.group(1)]
            return Agg((self.intop(op, args[0], args[1], int(m.group(2))), 0))
        m = re.match(r'llvm\.(ctlz|cttz|ctpop)\.i(\d+)', name)
        if m:
            w = int(m.group(2))

            def cnt(v):
                if type(v) is not int:
                    return U(('ctz',))
                if m.group(1) == 'ctpop':
                    return bin(v).count('1')
                if v == 0:
                    return w
                return w - v.bit_length() if m.group(1) == 'ctlz' else (v & -v).bit_length() - 1
            return self.B.map1(cnt, args[0])
        raise Undecided('intrinsic ' + name)

    def mathop(self, op, args):
        t = self.t
        if op in MATH1:
            return t.un(op, args[0])
        if op in ('fma', 'fmuladd'):
            return t.bin('+', t.bin('*', args[0], args[1]), args[2])
        if op == 'pow':
            return self.powop(args[0], args[1])
        if op in ('minnum', 'fmin', 'minimum'):
            return t.sel(t.cmp('lt', args[1], args[0]), args[1], args[0])
        if op in ('maxnum', 'fmax', 'maximum'):
            return t.sel(t.cmp('lt', args[0], args[1]), args[1], args[0])
        if op == 'copysign':
            ab = t.un('fabs', args[0])
            return t.sel(t.cmp('lt', args[1], t.const(0.0)), t.un('neg', ab), ab)
        if op in ('rint', 'round', 'nearbyint'):
            return t.mk('round', args[0])
        if op in ('canonicalize', 'arithmetic'):
            return args[0]
        return None

    def powop(self, x, y):
        t = self.t
        if y.op == 'c':
            e = y.args[0]
            if e == int(e) and 0 <= e <= 8:
                r = t.const(1.0)
                for _ in range(int(e)):
                    r = t.bin('*', r, x)
                return r
            if e == 0.5:
                return t.un('sqrt', x)
            if e == -1:
                return t.bin('/', t.const(1.0), x)
        return t.mk('pow', x, y)


class Packed:
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = parts

    @staticmethod
    def make(parts):
        return Packed(tuple(parts))

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


INTOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}


def s(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def int2(op, x, y, w):
    M = (1 << w) - 1
    if op == 'add':
        return (x + y) & M
    if op == 'sub':
        return (x - y) & M
    if op == 'mul':
        return (x * y) & M
    if op == 'and':
        return x & y
    if op == 'or':
        return x | y
    if op == 'xor':
        return x ^ y
    if op == 'shl':
        return (x << y) & M
    if op == 'lshr':
        return x >> y
    if op == 'ashr':
        return (s(x, w) >> y) & M
    if y == 0:
        return U(('div0',))
    if op == 'udiv':
        return x // y
    if op == 'urem':
        return x % y
    a, b = s(x, w), s(y, w)
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    if op == 'sdiv':
        return q & M
    return (a - q * b) & M


def icmp2(pred, x, y, w):
    if pred == 'eq':
        return int(x == y)
    if pred == 'ne':
        return int(x != y)
    if pred[0] == 's':
        x = s(x, w); y = s(y, w)
    p = pred[1:]
    return int(x < y if p == 'lt' else x <= y if p == 'le' else x > y if p == 'gt' else x >= y)


def fmtloc(lo):
    if not lo:
        return '?'
    f = lo[0]
    i = f.find('/repo/')
    if i >= 0:
        f = f[i + 6:]
    return '%s:%d' % (f, lo[1])


def _new(kind):
    def f(I, args, pc):
        n = args[0]
        if type(n) is Node:
            n = I.B.restrict(n, pc)
        if type(n) is Node:
            # one object per size
            B = I.B
            res = None
            first = True
            for lf in B.leaves(n):
                c = B.AND(pc, B.is_leaf(n, lf))
                p = I.malloc(lf, c, kind)
                res = p if first else I.vite(B.restrict(c, pc), p, res)
                first = False
            return res, pc
        return I.malloc(n, pc, kind), pc
    return f


def _free(kind):
    def f(I, args, pc):
        I.free(args[0], pc, kind)
        return None, pc
    return f


def _m1(op):
    def f(I, args, pc):
        return I.mathop(op, [I.as_double(x) for x in args]), pc
    return f


def _m2(op):
    def f(I, args, pc):
        a, b = I.as_double(args[0]), I.as_double(args[1])
        return I.t.mk(op, a, b), pc
    return f


def _memcpy(I, args, pc):
    I.memcpy(args[0], args[1], args[2], pc)
    return args[0], pc


def _hypot(I, args, pc):
    t = I.t
    a, b = args
    return t.un('sqrt', t.bin('+', t.bin('*', a, a), t.bin('*', b, b))), pc


BUILTINS = {
    '_Znwm': _new('new'), '_Znam': _new('new[]'), 'malloc': _new('malloc'),
    '_ZdlPv': _free('new'), '_ZdlPvm': _free('new'), '_ZdaPv': _free('new[]'), '_ZdaPvm': _free('new[]'),
    'free': _free('malloc'),
    'atan2': _m2('atan2'), 'fmod': _m2('fmod'), 'pow': lambda I, a, pc: (I.powop(*a), pc), 'hypot': _hypot,
    'memcpy': _memcpy, 'memmove': _memcpy,
    '__clang_call_terminate': lambda I, a, pc: (None, 0),
}
for _o in MATH1:
    BUILTINS[_o] = _m1(_o)
for _o in ('fmin', 'fmax'):
    BUILTINS[_o] = _m1(_o)

"""Hash-consed value graph for floating point values."""
import math, struct
from bdd import Node

BIG = 1e300


class T:
    __slots__ = ('op', 'args', 'uid', 'aux', '__weakref__')

    def __init__(self, op, args, uid):
        self.op = op; self.args = args; self.uid = uid; self.aux = None

    def __repr__(self):
        return show(self, 3)


def show(t, d=6):
    if not isinstance(t, T):
        return repr(t)
    if t.op == 'c':
        return repr(t.args[0])
    if t.op in ('sym', 'undef'):
        return str(t.args[0]) if t.op == 'sym' else 'UNDEF%s' % (t.args,)
    if d <= 0:
        return '#%d' % t.uid
    if t.op in ('+', '-', '*', '/') and len(t.args) == 2:
        return '(%s %s %s)' % (show(t.args[0], d - 1), t.op, show(t.args[1], d - 1))
    if t.op == 'sel':
        return 'sel[%r](%s, %s)' % (t.args[0], show(t.args[1], d - 1), show(t.args[2], d - 1))
    return '%s(%s)' % (t.op, ', '.join(show(a, d - 1) for a in t.args))


class Terms:
    def __init__(self, bdd):
        self.tab = {}
        self.n = 0
        self.B = bdd
        self.infc = {}
        self.atoms = {}
        self.constsel = {}
        self.glev = {}
        self.pos = set()     # symbols known to be positive
        self.loc = None      # current source location provider

    def mk(self, op, *args):
        k = (op,) + tuple((a.uid, 1) if type(a) is T else (a.uid, 2) if type(a) is Node else a for a in args)
        r = self.tab.get(k)
        if r is None:
            self.n += 1
            r = T(op, args, self.n)
            self.tab[k] = r
        return r

    def const(self, f):
        f = float(f)
        # distinguish -0.0 : treat as 0.0 (no reliance on signed zero)
        if f == 0:
            f = 0.0
        k = ('c', struct.pack('d', f))
        r = self.tab.get(k)
        if r is None:
            self.n += 1
            r = T('c', (f,), self.n)
            self.tab[k] = r
        return r

    def sym(self, name):
        return self.mk('sym', name)

    # ---- arithmetic with folding
    def bin(self, op, a, b):
        if a.op == 'c' and b.op == 'c':
            x, y = a.args[0], b.args[0]
            try:
                if op == '+':
                    return self.const(x + y)
                if op == '-':
                    return self.const(x - y)
                if op == '*':
                    return self.const(x * y)
                if op == '/':
                    return self.const(x / y)
            except (ZeroDivisionError, OverflowError):
                pass
        if op == '+':
            if b.op == 'c' and b.args[0] == 0.0:
                return a
            if a.op == 'c' and a.args[0] == 0.0:
                return b
        elif op == '-':
            if b.op == 'c' and b.args[0] == 0.0:
                return a
            if a is b:
                return self.const(0.0)
        elif op == '*':
            if b.op == 'c' and b.args[0] == 1.0:
                return a
            if a.op == 'c' and a.args[0] == 1.0:
                return b
            if b.op == 'c' and b.args[0] == 0.0:
                return b
            if a.op == 'c' and a.args[0] == 0.0:
                return a
        elif op == '/':
            if b.op == 'c' and b.args[0] == 1.0:
                return a
            if a.op == 'c' and a.args[0] == 0.0:
                return a
        return self.mk(op, a, b)

    UN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos,
          'sqrt': math.sqrt, 'fabs': abs, 'floor': math.floor, 'ceil': math.ceil, 'exp': math.exp, 'log': math.log,
          'trunc': math.trunc, 'tanh': math.tanh, 'cosh': math.cosh, 'sinh': math.sinh}

    def un(self, op, a):
        if op == 'neg':
            if a.op == 'c':
                return self.const(-a.args[0])
            if a.op == 'neg':
                return a.args[0]
            return self.mk('neg', a)
        if a.op == 'c':
            try:
                return self.const(self.UN[op](a.args[0]))
            except (ValueError, OverflowError):
                pass
        if op == 'fabs' and (a.op in ('fabs', 'sqrt') or a.op.startswith('len_')):
            return a
        if op == 'fabs' and a.op == 'neg':
            return self.un(op, a.args[0])
        if op == 'fabs' and a.op == 'sym' and a.args[0] in self.pos:
            return a
        return self.mk(op, a)

    def sel(self, c, a, b):
        if type(c) is int:
            return a if c else b
        if a is b:
            return a
        # collapse nested identical structure
        if b.op == 'sel' and b.args[2] is a:
            # c? a : (d? x : a)
            return self.sel(self.B.AND(self.B.NOT(c), b.args[0]), b.args[1], a)
        if a.op == 'sel' and a.args[1] is b and False:
            pass
        return self.mk('sel', c, a, b)

    def simp(self, t, pc):
        while t.op == 'sel':
            c = self.B.restrict(t.args[0], pc)
            if type(c) is int:
                t = t.args[1] if c else t.args[2]
            elif c is not t.args[0]:
                a = t.args[1]
                b = t.args[2]
                return self.sel(c, a, b)
            else:
                return t
        return t

    # ---- comparisons
    def inf(self, t):
        """condition under which t is the 'no path' constant (>= 1e300)"""
        if t.op == 'c':
            return 1 if t.args[0] >= BIG else 0
        if t.op == 'sel':
            r = self.infc.get(t.uid)
            if r is None:
                r = self.B.ite(t.args[0], self.inf(t.args[1]), self.inf(t.args[2]))
                self.infc[t.uid] = r
            return r
        return 0

    def allconst(self, t):
        if t.op == 'c':
            return True
        if t.op == 'sel':
            r = self.constsel.get(t.uid)
            if r is None:
                r = self.allconst(t.args[1]) and self.allconst(t.args[2])
                self.constsel[t.uid] = r
            return r
        return False

    def cmp(self, pred, a, b):
        """ordered comparison as a condition (NaN excluded).  pred in lt le gt ge eq ne"""
        B = self.B
        if pred == 'gt':
            return self.cmp('lt', b, a)
        if pred == 'ge':
            return B.NOT(self.cmp('lt', a, b))
        if pred == 'le':
            return B.NOT(self.cmp('lt', b, a))
        if pred == 'ne':
            return B.NOT(self.cmp('eq', a, b))
        if a is b:
            return 1 if pred == 'eq' else 0
        if a.op == 'c' and b.op == 'c':
            x, y = a.args[0], b.args[0]
            return int(x < y) if pred == 'lt' else int(x == y)
        if self.allconst(a) and self.allconst(b):
            if a.op == 'sel':
                return B.ite(a.args[0], self.cmp(pred, a.args[1], b), self.cmp(pred, a.args[2], b))
            return B.ite(b.args[0], self.cmp(pred, a, b.args[1]), self.cmp(pred, a, b.args[2]))
        ia = self.inf(a)
        ib = self.inf(b)
        at = self.atom(pred, a, b) if not (ia == 1 or ib == 1) else 0
        if pred == 'lt':
            return B.ite(ia, 0, B.ite(ib, 1, at))
        return B.ite(ia, ib, B.ite(ib, 0, at))

    def atom(self, pred, a, b):
        B = self.B
        key = (a.uid, b.uid) if a.uid < b.uid else (b.uid, a.uid)
        ent = self.atoms.get(key)
        if ent is None:
            ent = [None, None, a, b]          # orientation fixed by the first query
            self.atoms[key] = ent
        x, y = ent[2], ent[3]
        # var0: x<y ; var1: x==y given not x<y
        v0 = B.var(self.avar(ent, 0, x, y))
        if pred == 'lt' and x is a:
            return v0
        v1 = B.var(self.avar(ent, 1, x, y))
        if pred == 'lt':
            return B.AND(B.NOT(v0), B.NOT(v1))
        return B.AND(B.NOT(v0), v1)

    def avar(self, ent, i, x, y):
        if ent[i] is None:
            above = None
            if i == 1:
                above = self.B.lev[ent[0]]
            else:
                l = self.gatelev(x)
                if l >= 0:
                    above = l
            ent[i] = self.B.new_var(('lt' if i == 0 else 'eq', x, y, self.loc() if self.loc else None), above)
        return ent[i]

    def gatelev(self, t):
        """highest variable level among the gates at the top of t"""
        r = self.glev.get(t.uid)
        if r is None:
            r = -1
            if t.op == 'sel':
                r = max(self.B.toplev(t.args[0]), self.gatelev(t.args[1]), self.gatelev(t.args[2]))
            self.glev[t.uid] = r
        return r

    # ---- traversal
    def support(self, t, memo=None, conds=True):
        """set of leaf terms (sym/undef) t depends on, including through gate conditions"""
        out = set()
        seen = set()
        seenv = set()
        st = [t]
        while st:
            x = st.pop()
            if x.uid in seen:
                continue
            seen.add(x.uid)
            if x.op in ('sym', 'undef'):
                out.add(x)
                continue
            if x.op == 'sel':
                if conds:
                    for v in self.B.support(x.args[0]):
                        if v not in seenv:
                            seenv.add(v)
                            inf = self.B.info[v]
                            for z in inf[1:3]:
                                if isinstance(z, T):
                                    st.append(z)
                st.append(x.args[1]); st.append(x.args[2])
                continue
            for a in x.args:
                if type(a) is T:
                    st.append(a)
        return out

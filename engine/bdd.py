"""Multi-terminal BDDs over atoms.  Newer variables are closer to the root.  Terminals are arbitrary
hashable python values (0/1 for conditions, ints, pointers ...); doubles are terms and are merged by
`sel` terms instead (see terms.py)."""

import bisect
GAP = 1 << 256


class Node:
    __slots__ = ('var', 'hi', 'lo', 'uid', 'lev')

    def __init__(self, var, hi, lo, uid, lev):
        self.var = var; self.hi = hi; self.lo = lo; self.uid = uid; self.lev = lev

    def __repr__(self):
        return 'N%d' % self.uid


class Budget(Exception):
    pass


class BDD:
    def __init__(self):
        self.limit = 1 << 60
        self.uniq = {}
        self.n = 0
        self.nvars = 0
        self.c_ite = {}
        self.c_re = {}
        self.c_ap1 = {}
        self.c_ap2 = {}
        self.c_lv = {}
        self.c_isl = {}
        self.info = []
        self.lev = []           # variable -> level (larger = closer to the root)
        self.levs = []          # sorted levels

    def new_var(self, info, above=None):
        """new variable at the root, or just above level `above`"""
        v = self.nvars
        self.nvars += 1
        self.info.append(info)
        levs = self.levs
        top = (levs[-1] if levs else 0) + GAP
        if above is None:
            l = top
        else:
            i = bisect.bisect_right(levs, above)
            if i == len(levs):
                l = top
            else:
                l = (above + levs[i]) // 2
                if l == above:
                    l = top
        self.lev.append(l)
        bisect.insort(self.levs, l)
        return v

    def seal_top(self):
        """keep the variables created so far above all later ones"""
        off = GAP << 40
        self.lev = [l + off for l in self.lev]
        self.levs = []

    def var(self, v):
        return self.mk(v, 1, 0)

    def mk(self, var, hi, lo):
        if hi is lo or (type(hi) is not Node and type(lo) is not Node and type(hi) is type(lo) and hi == lo):
            return hi
        k = (var, hi if type(hi) is not Node else -hi.uid - 10**9, lo if type(lo) is not Node else -lo.uid - 10**9,
             type(hi), type(lo))
        r = self.uniq.get(k)
        if r is None:
            self.n += 1
            if self.n > self.limit:
                raise Budget()
            r = Node(var, hi, lo, self.n, self.lev[var])
            self.uniq[k] = r
        return r

    # conditions -------------------------------------------------------
    def NOT(self, a):
        return self.ite(a, 0, 1)

    def AND(self, a, b):
        if type(a) is int:
            return b if a else 0
        if type(b) is int:
            return a if b else 0
        if a is b:
            return a
        return self.ite(a, b, 0)

    def OR(self, a, b):
        if type(a) is int:
            return 1 if a else b
        if type(b) is int:
            return 1 if b else a
        if a is b:
            return a
        return self.ite(a, 1, b)

    def ite(self, c, a, b):
        if type(c) is int:
            return a if c else b
        if a is b:
            return a
        ta = type(a) is Node
        tb = type(b) is Node
        if not ta and not tb:
            if type(a) is type(b) and a == b:
                return a
            if type(a) is int and type(b) is int and a == 1 and b == 0:
                return c
        k = (c.uid, (a.uid, 'n') if ta else (a, type(a)), (b.uid, 'n') if tb else (b, type(b)))
        r = self.c_ite.get(k)
        if r is not None:
            return r
        v = c.var
        l = c.lev
        if ta and a.lev > l:
            v = a.var; l = a.lev
        if tb and b.lev > l:
            v = b.var
        if c.var == v:
            c1, c0 = c.hi, c.lo
        else:
            c1 = c0 = c
        if ta and a.var == v:
            a1, a0 = a.hi, a.lo
        else:
            a1 = a0 = a
        if tb and b.var == v:
            b1, b0 = b.hi, b.lo
        else:
            b1 = b0 = b
        r = self.mk(v, self.ite(c1, a1, b1), self.ite(c0, a0, b0))
        self.c_ite[k] = r
        return r

    def restrict(self, f, c):
        """simplify f knowing c holds"""
        if type(f) is not Node or type(c) is not Node:
            return f
        if f is c:
            return 1
        k = (f.uid, c.uid)
        r = self.c_re.get(k)
        if r is not None:
            return r
        if c.lev > f.lev:
            r = self.restrict(f, self.OR(c.hi, c.lo))
        elif c.var == f.var:
            if type(c.hi) is int and c.hi == 0:
                r = self.restrict(f.lo, c.lo)
            elif type(c.lo) is int and c.lo == 0:
                r = self.restrict(f.hi, c.hi)
            else:
                r = self.mk(f.var, self.restrict(f.hi, c.hi), self.restrict(f.lo, c.lo))
        else:
            r = self.mk(f.var, self.restrict(f.hi, c), self.restrict(f.lo, c))
        self.c_re[k] = r
        return r

    def apply1(self, key, fn, a):
        """map terminals"""
        if type(a) is not Node:
            return fn(a)
        k = (key, a.uid)
        r = self.c_ap1.get(k)
        if r is None:
            r = self.mk(a.var, self.apply1(key, fn, a.hi), self.apply1(key, fn, a.lo))
            self.c_ap1[k] = r
        return r

    def map1(self, fn, a, memo=None):
        """uncached (per call) map over terminals; fn result may itself be a Node"""
        if type(a) is not Node:
            return fn(a)
        if memo is None:
            memo = {}
        r = memo.get(a.uid)
        if r is None:
            h = self.map1(fn, a.hi, memo)
            l = self.map1(fn, a.lo, memo)
            r = self.ite(self.mk(a.var, 1, 0), h, l)
            memo[a.uid] = r
        return r

    def apply2(self, key, fn, a, b):
        ta = type(a) is Node
        tb = type(b) is Node
        if not ta and not tb:
            return fn(a, b)
        k = (key, (a.uid, 'n') if ta else (a, type(a)), (b.uid, 'n') if tb else (b, type(b)))
        r = self.c_ap2.get(k)
        if r is not None:
            return r
        v = a.var if ta and (not tb or a.lev >= b.lev) else b.var
        if ta and a.var == v:
            a1, a0 = a.hi, a.lo
        else:
            a1 = a0 = a
        if tb and b.var == v:
            b1, b0 = b.hi, b.lo
        else:
            b1 = b0 = b
        r = self.mk(v, self.apply2(key, fn, a1, b1), self.apply2(key, fn, a0, b0))
        self.c_ap2[k] = r
        return r

    def leafset(self, a):
        """cached frozenset of (type, terminal)"""
        if type(a) is not Node:
            return frozenset(((type(a), a),))
        r = self.c_lv.get(a.uid)
        if r is None:
            x = self.leafset(a.hi)
            y = self.leafset(a.lo)
            r = x if y <= x else y if x <= y else x | y
            self.c_lv[a.uid] = r
        return r

    def leaves(self, a):
        if type(a) is not Node:
            return [a]
        return [x for _, x in sorted(self.leafset(a), key=self.leafkey)]

    def leafkey(self, k):
        return (k[0].__name__, repr(k[1]))

    def is_leaf(self, a, leaf):
        """condition under which a's terminal is `leaf`"""
        key = (type(leaf), leaf)
        memo = self.c_isl.setdefault(key, {})

        def rec(x):
            if type(x) is not Node:
                return 1 if type(x) is key[0] and x == leaf else 0
            r = memo.get(x.uid)
            if r is None:
                s = self.leafset(x)
                if key not in s:
                    r = 0
                elif len(s) == 1:
                    r = 1
                else:
                    r = self.mk(x.var, rec(x.hi), rec(x.lo))
                memo[x.uid] = r
            return r
        return rec(a)

    def cond_of(self, a, pred):
        """condition under which the terminal satisfies pred"""
        memo = {}

        def rec(x):
            if type(x) is not Node:
                return 1 if pred(x) else 0
            r = memo.get(x.uid)
            if r is None:
                r = self.mk(x.var, rec(x.hi), rec(x.lo))
                memo[x.uid] = r
            return r
        return rec(a)

    def support(self, a):
        seen = set()
        out = set()
        st = [a]
        while st:
            x = st.pop()
            if type(x) is Node and x.uid not in seen:
                seen.add(x.uid)
                out.add(x.var)
                st.append(x.hi); st.append(x.lo)
        return out

    def toplev(self, a):
        return a.lev if type(a) is Node else -1

    def size(self, a):
        seen = set()
        st = [a]
        while st:
            x = st.pop()
            if type(x) is Node and x.uid not in seen:
                seen.add(x.uid)
                st.append(x.hi); st.append(x.lo)
        return len(seen)

    def eval(self, a, asg):
        """asg: callable var->bool"""
        while type(a) is Node:
            a = a.hi if asg(a.var) else a.lo
        return a

"""Random interpretation of the value graph: a term denotes an (analytic, branch-wise) function of the symbolic inputs; two
terms denote the same function on a branch iff they agree at a generic point of the (complexified) input domain.
Uninterpreted functions are given fixed generic analytic meanings.  The library is never executed."""
import cmath, math, random, zlib
from bdd import Node
from terms import T

PI = math.pi


class NumErr(Exception):
    pass


def rnd(*key):
    return random.Random(zlib.crc32(repr(key).encode()))


_uf = {}


def uf_value(name, args, periodic=()):
    """a fixed generic analytic function of the arguments; 2*pi-periodic in the arguments listed in `periodic`"""
    k = (name, len(args))
    c = _uf.get(k)
    if c is None:
        r = rnd('uf', name, len(args))
        c = [(r.uniform(0.5, 2), r.uniform(0.3, 0.9), r.uniform(0, 6)) for _ in args], r.uniform(1, 2)
        _uf[k] = c
    s = c[1]
    for i, (a, (p, w, f)) in enumerate(zip(args, c[0])):
        if i in periodic:
            s += p * cmath.cos(a + f) + 0.31 * p * cmath.sin(2 * a + f)
        elif abs(a) > 1e6:
            s += p * (cmath.phase(a) if a.imag else (1 if a.real > 0 else -1))
        else:
            s += p * cmath.sin(w * a + f)
    return s


def catan2(y, x):
    if y.imag == 0 and x.imag == 0:
        return complex(math.atan2(y.real, x.real))
    r = cmath.sqrt(x * x + y * y)
    if abs(r) < 1e-300:
        raise NumErr('atan2')
    return -1j * cmath.log((x + 1j * y) / r)


def cfabs(z):
    if z.imag == 0:
        return complex(abs(z.real))
    return z if z.real >= 0 else -z


def creal(fn):
    def f(z):
        return complex(fn(z.real))
    return f


UN = {'neg': lambda z: -z, 'sin': cmath.sin, 'cos': cmath.cos, 'tan': cmath.tan, 'atan': cmath.atan, 'asin': cmath.asin,
      'acos': cmath.acos, 'sqrt': cmath.sqrt, 'fabs': cfabs, 'floor': creal(math.floor), 'ceil': creal(math.ceil),
      'trunc': creal(math.trunc), 'f2i': creal(math.trunc), 'i2f': lambda z: z, 'exp': cmath.exp, 'log': cmath.log,
      'tanh': cmath.tanh, 'sinh': cmath.sinh, 'cosh': cmath.cosh, 'round': creal(lambda v: math.floor(v + 0.5))}


class Eval:
    def __init__(self, bdd, env, scen=None, hooks=None):
        self.B = bdd
        self.env = env               # symbol name -> complex
        self.memo = {}
        self.vmemo = {}
        self.scen = scen             # callable(info) -> bool for partition variables
        self.hooks = hooks or {}
        self.domain = []             # (op, term, value) evaluated outside its real domain
        self.poison = []
        self.near = 1e30             # smallest margin of a decided comparison
        self.trace = None            # margins of the decided comparisons, if wanted

    def val(self, t):
        r = self.memo.get(t.uid)
        if r is None:
            r = self.ev(t)
            self.memo[t.uid] = r
        return r

    def ev(self, t):
        op = t.op
        a = t.args
        if op == 'c':
            return complex(a[0])
        if op == 'sym':
            v = self.env.get(a[0])
            if v is None:
                v = self.free(a[0])
            return complex(v)
        if op == 'sel':
            return self.val(a[1] if self.cond(a[0]) else a[2])
        h = self.hooks.get(op)
        if h is not None:
            return h(self, t)
        if op == '+':
            return self.val(a[0]) + self.val(a[1])
        if op == '-':
            return self.val(a[0]) - self.val(a[1])
        if op == '*':
            return self.val(a[0]) * self.val(a[1])
        if op == '/':
            d = self.val(a[1])
            if d == 0:
                raise NumErr('division by zero')
            return self.val(a[0]) / d
        f = UN.get(op)
        if f is not None:
            z = self.val(a[0])
            if z.imag == 0 and ((op == 'sqrt' and z.real < -1e-12) or (op in ('asin', 'acos') and abs(z.real) > 1 + 1e-12)):
                self.domain.append((op, t, z))
            try:
                return complex(f(z))
            except (OverflowError, ValueError) as e:
                raise NumErr(str(e))
        if op == 'atan2':
            return catan2(self.val(a[0]), self.val(a[1]))
        if op == 'fmod':
            x, y = self.val(a[0]), self.val(a[1])
            if y.real == 0:
                raise NumErr('fmod')
            return x - y * math.trunc((x / y).real)
        if op == 'pow':
            return self.val(a[0]) ** self.val(a[1])
        if op == 'undef':
            raise NumErr('uninitialised %r' % (a,))
        if op == 'uf':
            return uf_value('uf:' + str(a[0]), [self.val(x) for x in a[1:] if type(x) is T])
        if op.startswith('len_') or op.startswith('blk_'):
            return uf_value(op, [self.val(x) for x in a], (12, 19) if op.startswith('len_') else ())
        if op.startswith('i'):
            return uf_value(op, [self.val(x) for x in a])
        raise NumErr('op ' + op)

    def free(self, name):
        r = rnd('free', name)
        return r.uniform(0.3, 1.7)

    def cond(self, c):
        while type(c) is Node:
            c = c.hi if self.atom(c.var) else c.lo
        return bool(c)

    def atom(self, v):
        r = self.vmemo.get(v)
        if r is None:
            kind, x, y, loc = self.B.info[v]
            if kind in ('lt', 'eq'):
                try:
                    d = (self.val(x) - self.val(y)).real
                except NumErr as e:
                    # a comparison outside the region where its operands are defined: irrelevant to every value whose
                    # gate includes the guarding condition (decided first or second, the outcome is the same)
                    self.poison.append((v, str(e)))
                    d = 0.0
                if d != 0:
                    self.near = min(self.near, abs(d))
                if self.trace is not None:
                    self.trace[v] = d
                r = d < 0 if kind == 'lt' else d == 0
            elif self.scen is not None:
                r = self.scen(v, self.B.info[v])
            else:
                raise NumErr('partition variable')
            self.vmemo[v] = r
        return r


def same(a, b, tol=1e-7):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def same_angle(a, b, tol=1e-7):
    """equal modulo 2*pi"""
    d = a - b
    k = round(d.real / (2 * PI)) if abs(d.real) < 1e9 else 0
    return abs(d - 2 * PI * k) <= tol * (1 + abs(a) + abs(b))

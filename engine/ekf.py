"""Textbook oracle of the extended Kalman filter, and its comparison with the value graph of the filter."""
import math
from paths import advance

IX = [0, 1, 2, 4, 5, 6, 8, 9, 10]          # entries of the pose block in the 4x4 covariances


def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def tr(a):
    return [list(r) for r in zip(*a)]


def add(a, b, s=1):
    return [[x + s * y for x, y in zip(r, q)] for r, q in zip(a, b)]


def inv3(m):
    (a, b, c), (d, e, f), (g, h, i) = m
    A, B, C = e * i - f * h, -(d * i - f * g), d * h - e * g
    det = a * A + b * B + c * C
    return [[A / det, -(b * i - c * h) / det, (b * f - c * e) / det],
            [B / det, (a * i - c * g) / det, -(a * f - c * d) / det],
            [C / det, -(a * h - b * g) / det, (a * e - b * d) / det]]


EYE = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]


def jacobi(th, k, sg, d, step):
    """derivatives of the pose after a step: by the pose before it, by signed distance and by curvature"""
    def f(t, kk, s):
        return advance((0j, 0j, complex(t)), (complex(d * s), complex(kk), complex(sg)))

    def dif(g, h):
        # Richardson-extrapolated central difference
        D = lambda h: [(a - b) / (2 * h) for a, b in zip(g(h), g(-h))]
        return [(4 * y - x) / 3 for x, y in zip(D(h), D(h / 2))]
    t = dif(lambda h: f(th + h, k, step), 2e-3)
    u = [d * z for z in dif(lambda h: f(th, k, step + h), min(2e-3, step / 4))]
    if abs(sg) < 1e-9 and abs(k) < 1e-9:
        v = [0, 0, d * step]                   # on a straight line the effect of the curvature on the position is neglected
    else:
        v = dif(lambda h: f(th, k + h, step), 2e-3)
    Fx = [[1, 0, t[0]], [0, 1, t[1]], [0, 0, t[2]]]
    Fu = [[u[i], v[i]] for i in range(3)]
    return Fx, Fu


def predict(e, Sg, Lm, th, k, sg, d, step):
    Fx, Fu = jacobi(th, k, sg, d, step)
    Q = [[e['alpha1'] * step ** 2 + e['alpha2'] * k * k, 0], [0, e['alpha3'] * step ** 2 + e['alpha4'] * k * k]]
    S = add(mul(mul(Fx, Sg), tr(Fx)), mul(mul(Fu, Q), tr(Fu)))
    c, s = math.cos(th), math.sin(th)
    K = [[e['gk1'], 0, 0], [0, e['gk2'], d * e['gk3']]]
    R = [[c, s, 0], [-s, c, 0], [0, 0, 1]]
    FK = add(Fx, mul(Fu, mul(K, R)), -1)
    return S, mul(mul(FK, Lm), tr(FK))


def update(e, Sg, Lm):
    R = [[e['std_x'] ** 2, 0, 0], [0, e['std_y'] ** 2, 0], [0, 0, e['std_theta'] ** 2]]
    L = mul(Sg, inv3(add(Sg, R)))
    A = add(EYE, L, -1)
    return add(mul(mul(A, Sg), tr(A)), mul(mul(L, R), tr(L))), add(Lm, mul(L, tr(Sg)))


def noise(r, e):
    for n in ('alpha1', 'alpha2', 'alpha3', 'alpha4', 'std_x', 'std_y', 'std_theta', 'gk1', 'gk2', 'gk3'):
        e[n] = complex(r.uniform(0.2, 1.5))


def covariances(r, e):
    """symmetric positive definite start values"""
    out = []
    for p in 'SL':
        a = [[r.uniform(-1, 1) for _ in range(4)] for _ in range(4)]
        m = mul(a, tr(a))
        for i in range(4):
            m[i][i] += 0.1
        for i in range(16):
            e['%s%d' % (p, i)] = complex(m[i // 4][i % 4])
        out.append([row[:3] for row in m[:3]])
    for i in range(16):
        e['C%d' % i] = e['S%d' % i] + e['L%d' % i]
    return out


def close(a, b):
    m = max([1.0] + [abs(z) for r in b for z in r])
    return max(abs(x - y) for r, q in zip(a, b) for x, y in zip(r, q)) < 2e-6 * m


def show(m):
    return '[' + '; '.join(' '.join('%.4g' % complex(z).real for z in r) for r in m) + ']'

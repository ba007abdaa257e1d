"""C02: results never depend on uninitialised memory."""
import sweep
from interp import U
from bdd import Node
from terms import T

R = 'a returned value does not depend on uninitialised memory'


def undef(q, v, pc):
    """uninitialised leaves of a result that are live under pc"""
    t = q.I.as_term(v) if type(v) is not T else v
    if not any(x.op == 'undef' for x in q.t.support(t)):
        return []
    B = q.B
    # conditions top-down, children after parents
    order, seen = [], set()

    def post(x):
        st = [(x, iter([a for a in x.args if type(a) is T]))]
        seen.add(x.uid)
        while st:
            y, it = st[-1]
            for a in it:
                if a.uid not in seen:
                    seen.add(a.uid)
                    st.append((a, iter([b for b in a.args if type(b) is T])))
                    break
            else:
                order.append(y)
                st.pop()
    post(t)
    cond = {t.uid: pc}
    out = []
    for x in reversed(order):
        c = cond.get(x.uid, 0)
        if type(c) is int and c == 0:
            continue
        if x.op == 'undef':
            out.append(x)
        elif x.op == 'sel':
            for a, g in ((x.args[1], x.args[0]), (x.args[2], B.NOT(x.args[0]))):
                cond[a.uid] = B.OR(cond.get(a.uid, 0), B.AND(c, g))
        else:
            for a in x.args:
                if type(a) is T:
                    cond[a.uid] = B.OR(cond.get(a.uid, 0), c)
    return out


def visit(q, what, drv, first):
    v = []
    n = 0
    for c in q.ctrls:
        for k, x in zip(('length', 'curvature', 'sharpness'), c[1:]):
            n += 1
            for u in undef(q, x, c[0]):
                v.append((R, 'planner %s, %s of a segment' % (what, k), 'may be %s' % (u.args,), []))
    for nm, l in q.doubles.items():
        for pc, x in l:
            n += 1
            for u in undef(q, x, pc):
                v.append((R, '%s, result %s' % (what, nm), 'may be %s' % (u.args,), []))
    for r in q.I.reports:
        if r['kind'] == 'uninit':
            v.append(('no decision is taken on uninitialised memory', sweep.where(r), '%s; query on %s' % (r['detail'], what), r['path']))
    return {'viol': v, 'counts': {'obligations': n + q.I.counts['branches'], 'result values checked': n, 'branch decisions checked': q.I.counts['branches']}}


def run(ctx):
    sweep.run(ctx, visit)
    ctx.rule(R)
    ctx.rule('no decision is taken on uninitialised memory')
    ctx.assumption('the filter parameters are set before covariances are asked for')
    ctx.need('result values checked', 1500)
    return ('Definite-initialisation analysis on the gated value graph: reads of cells that are not written on the path yield undefined leaves; '
            'no such leaf may be live in a returned segment, distance, state or covariance, nor in a branch condition.')

"""C03: results do not depend on earlier queries."""
import re
import sweep
from bdd import Node
from terms import T

R = 'the result does not depend on what earlier queries left in the planner'


def bdeps(q, c, seenv, st):
    for v in q.B.support(c):
        if v not in seenv:
            seenv.add(v)
            inf = q.B.info[v]
            if inf[0] == 'stale':
                return inf[3]
            st += [z for z in inf[1:3] if type(z) is T]
    return None


def stale(q, roots):
    """name of a stale cell that one of the roots (terms, conditions) depends on"""
    seen, seenv = set(), set()
    st = []
    for r in roots:
        if type(r) is T:
            st.append(r)
        elif type(r) is Node:
            b = bdeps(q, r, seenv, st)
            if b:
                return b
    while st:
        x = st.pop()
        if x.uid in seen:
            continue
        seen.add(x.uid)
        if x.op == 'sym':
            if x.args[0].startswith('stale_'):
                return x.args[0][6:]
            continue
        if x.op == 'undef':
            m = re.search(r"'stale', '([^']*)'", str(x.args))
            if m:
                return m.group(1)
            continue
        if x.op == 'sel':
            b = bdeps(q, x.args[0], seenv, st)
            if b:
                return b
        st += [a for a in x.args if type(a) is T]
    return None


def visit(q, what, drv, first):
    v = []
    n = 0
    locs = {'%s_%d' % k: e[2] for k, e in q.I.pwrites.items()}

    def chk(roots, res):
        b = stale(q, roots)
        if b:
            lo = locs.get(b)
            v.append((R, '%s (%s)' % ('%s:%d' % (sweep.short(lo[0]), lo[1]) if lo else b, what), '%s depends on a member written here by an earlier query' % res, []))
    for c in q.ctrls:
        n += 1
        chk(c, 'a segment')
    for nm, l in q.doubles.items():
        for c in l:
            n += 1
            chk(c, nm)
    for t in q.cands:
        n += 1
        chk([t], 'the length of a candidate')
    return {'viol': v, 'counts': {'obligations': n, 'result values checked': n, 'planner cells written by queries': len(q.stale),
                                  'pointer cells written by queries': len(getattr(q, 'ptrs', ()))}}


def run(ctx):
    sweep.run(ctx, visit, stale=True, aux=False)
    ctx.rule(R)
    ctx.need('result values checked', 5000)
    ctx.assumption('planner-lifetime cells that a query sets to values not depending on the two states (lazy initialisation) are taken as they are after construction')
    return ('Effect and dependence analysis: a first transfer collects every cell that outlives the query (members of the planner and of what it owns, globals) '
            'and that get_controls, get_distance, integrate, interpolate or integrate_with_covariance writes; a second transfer starts with all of these cells arbitrary; '
            'no returned segment, distance, state or candidate length, and no condition that selects between them, may depend on one of them.')

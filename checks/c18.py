"""C18: more freedom never lengthens a path."""
import families, lib, paths, relate, surveys
import relations

RULE = 'a planner whose paths include those of another never reports a longer distance'


def check(a, b, e):
    if min(a[2], b[2]) < 1e-7:
        return None
    if a[0] > b[0] + 1e-6 * (1 + b[0]):
        return '%.9g although the more restricted planner needs only %.9g' % (a[0], b[0])


def run(ctx):
    prog = ctx.prog
    L = paths.Leaves(prog)
    n = 300 if ctx.tier == 'quick' else 1200
    groups = {}
    for a, b in relate.FREER:
        groups.setdefault(a, []).append(b)
    tasks = []

    def task(a, bs, m):
        return lambda: (a, relate.pairwise(prog, a, bs, check, n, surveys.seed() + m, L))
    for a, bs in sorted(groups.items()):
        if a == 'rs':
            for b in bs:
                tasks.append((a, task(a, [b], 0)))
        else:
            for m in range(4 if a in families.RS + ['hc_rs'] else 1):
                tasks.append((a, task(a, bs, 10 * m)))

    def merge(name, ar):
        a, r = ar
        for k, v in r['counts'].items():
            ctx.count(k, v)
        for f, l in r['bad'].items():
            ctx.violation(RULE, 'planner ' + a, 'compared with %s: distance %s' % (f, l[0][1]), relate.where(l[0][0]))
    ctx.fan(tasks, merge)
    ctx.rule(RULE)
    for x in surveys.ASSUME:
        ctx.assumption(x)
    ctx.need('planner relations', len(relate.FREER))
    return relations.METHOD

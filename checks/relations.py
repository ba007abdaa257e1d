"""Runs relations between transformed problems over all planners."""
import families, g1, lib, paths, relate, surveys, wrappers

METHOD = ('The distance query of every planner is turned into one gated value graph (LLVM IR of the current tree, all paths, no execution). '
          'A planning problem is transformed as a whole and the graph is interpreted at both problems; the two lengths have to agree. '
          'Disagreements count only when they persist in a neighbourhood of the point and no decision is within the comparison tolerance.')


def run(ctx, rels, n, cap):
    prog = ctx.prog
    L = paths.Leaves(prog)
    if ctx.tier == 'thorough':
        n *= 6
        cap *= 6

    def task(f, k, m, parts):
        return lambda: relate.survey(prog, f, rels, k, surveys.seed() + 10 * m, L, cap=cap, part=(m, parts))

    def wtask(f, a):
        def g():
            d, out = {}, []
            for b in wrappers.CLASSES:
                out.append(relate.survey(prog, f, rels, max(6, 24 // len(rels)) * (6 if ctx.tier == 'thorough' else 1), surveys.seed(), L, dists=d, cls=(a, b)))
            return families.merge(out)
        return g
    tasks = []
    for f in families.RS:
        for m in range(4):
            tasks.append((f, task(f, n, m, 4)))
    for f in wrappers.WRAP:
        for a in wrappers.CLASSES:
            tasks.append((f, wtask(f, a)))
    for f in families.DUB + g1.FAMS:
        tasks.append((f, task(f, n, 0, 1)))
    ctx.fan(tasks)
    for r in rels:
        ctx.rule(r[1])
    for a in surveys.ASSUME:
        ctx.assumption(a)
    ctx.need('planner relations', 16 * len(rels))
    ctx.need('obligations', 16 * len(rels) * 60)
    return METHOD

"""Runs path obligations over all planners."""
import os
import basics, families, g1, lib, paths, wrappers

METHOD = ('LLVM IR of every source file is compiled from the current tree; each planner\'s public query is turned into one gated value graph '
          '(all paths at once, no execution; candidate selection partitioned so that every candidate path is looked at as the selected one). '
          'Equality of two graph values on a branch is decided by random interpretation: both are interpreted at generic (complex-perturbed) '
          'points of the region where the candidate exists and on the degenerate manifolds (equal and aligned poses, tangent circles).')

ASSUME = ['real arithmetic: rounding and the comparison tolerance itself are not modelled',
          'inputs are finite, the maximum curvature, sharpness and discretisation are positive',
          'the Fresnel routine returns the Fresnel integrals (decided by C21, and again by every check of poses)',
          'two analytic expressions that agree at a generic complex point are equal (probabilistic, error probability negligible)']


def seed():
    return int(os.environ.get('VERIF_SEED', '1') or 1)


def t_fresnel(prog):
    return 'fresnel', lambda: basics.fresnel(prog, 400, seed())


def run(ctx, visit, fams, n=54, im=1e-2, dist=False, ranking=False, rules=(), extra=()):
    prog = ctx.prog
    if ctx.tier == 'thorough':
        n *= 4
    hc = [f for f in fams if f in families.HCCC]
    gg = [f for f in fams if f in g1.FAMS]
    L = paths.Leaves(prog) if hc else None
    tasks = []

    def t_hc(f):
        return lambda: paths.survey(prog, f, visit, n=n, seed=seed(), im=im, dist=dist, leaves=L, nproc=3)

    def t_g1(f):
        return lambda: g1.survey(prog, f, visit, n=2 * n if f == 'rs' else 10 * n, seed=seed(), im=im, ranking=ranking, nproc=3)
    for f in hc:
        tasks.append((f, t_hc(f)))
    for f in gg:
        tasks.append((f, t_g1(f)))
    lib.fan(tasks + list(extra), ctx.merge_std, 7)
    ctx.count('planners analysed', len(fams))
    for r in rules:
        ctx.rule(r)
    for a in ASSUME:
        ctx.assumption(a)
    ctx.need('candidate paths', 12 * len(fams))
    return METHOD

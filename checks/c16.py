"""C16: elementary functions."""
import basics, surveys


def run(ctx):
    n = 400 if ctx.tier == 'quick' else 4000
    ctx.fan([('utilities', lambda: basics.utilities(ctx.prog, n, surveys.seed()))])
    for r in basics.RULES:
        ctx.rule(r)
    ctx.assumption('real arithmetic; Fresnel integrals exact (decided by C21)')
    ctx.need('obligations', 5000)
    return ('The value graphs (LLVM IR, all paths) of the elementary functions are interpreted on both sides of each of their decisions and at generic '
            'points, and compared with their mathematical definition.')

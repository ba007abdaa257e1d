"""C21: Fresnel integrals."""
import basics, surveys


def run(ctx):
    n = 1500 if ctx.tier == 'quick' else 12000
    ctx.fan([('fresnel', lambda: basics.fresnel(ctx.prog, n, surveys.seed()))])
    ctx.rule(basics.R_FRES)
    ctx.assumption('real arithmetic; the error between the points at which the piecewise polynomial is looked at is not bounded')
    ctx.need('Fresnel arguments', 1000)
    return ('The value graph of the Fresnel routine (LLVM IR; the coefficient tables are constants of the graph) is interpreted densely on each of its '
            'pieces and on both sides of every decision in it, and compared with the integrals.')

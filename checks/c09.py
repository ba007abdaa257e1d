"""C09: curvature continuity."""
import c20, families, surveys
from pathprops import v_continuity


def run(ctx):
    return surveys.run(ctx, v_continuity, families.HCCC, extra=c20.wtasks(ctx.prog, [c20.R_CURV], 3), rules=[c20.R_CURV] + [
        'continuous-curvature planners: the curvature at the end of a segment equals the curvature at the beginning of the next',
        'hybrid-curvature planners: the same wherever the driving direction does not change'])

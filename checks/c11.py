"""C11: curvature and sharpness limits."""
import c20, families, g1, surveys
from pathprops import v_bounds


def run(ctx):
    return surveys.run(ctx, v_bounds, families.HCCC + g1.FAMS, im=0, extra=c20.wtasks(ctx.prog, [c20.R_LIM], 3), rules=[c20.R_LIM] + [
        'at both ends of every emitted segment the absolute curvature is at most the configured maximum',
        'the absolute sharpness of every emitted segment is at most the configured maximum'])

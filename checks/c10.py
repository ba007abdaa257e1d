"""C10: forward-only (backward-only) planners never change direction."""
import c20, families, g1, surveys
from pathprops import v_direction


def run(ctx):
    return surveys.run(ctx, v_direction, families.DUB + ['dubins_f', 'dubins_b'], im=0, n=60, extra=c20.wtasks(ctx.prog, [c20.R_DIR], 3), rules=[c20.R_DIR] + [
        'every emitted segment has a length of the sign of the configured driving direction'])

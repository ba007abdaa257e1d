"""C08: following the returned controls from the start pose reaches the goal pose."""
import basics, c20, families, g1, surveys
from pathprops import v_goal


def run(ctx):
    return surveys.run(ctx, v_goal, families.HCCC + g1.FAMS, extra=[surveys.t_fresnel(ctx.prog)] + c20.wtasks(ctx.prog, [c20.R_GOAL], 3), rules=[basics.R_FRES, c20.R_GOAL,
        'the composition of the emitted clothoids, arcs and straight segments maps the start pose to the goal pose (heading modulo a full turn)'])

"""C12: boundary curvature."""
import families, surveys
from pathprops import v_boundary


def run(ctx):
    return surveys.run(ctx, v_boundary, families.HCCC, rules=[
        'the path begins (ends) with zero curvature where the planner promises zero, and with plus or minus the maximum where it promises that',
        'a start (goal) state with nonzero curvature selects the sign of the maximum'])

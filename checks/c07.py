"""C07: the reported distance is the length of the returned path, and candidates are ranked by it."""
import c20, families, g1, surveys
from pathprops import v_length


def run(ctx):
    return surveys.run(ctx, v_length, families.HCCC + g1.FAMS, dist=True, ranking=True, extra=c20.wtasks(ctx.prog, [c20.R_LEN, c20.R_RANK], 3), rules=[c20.R_LEN, c20.R_RANK] + [
        'the length used to rank a candidate is the sum of the absolute lengths of the controls it emits',
        'the distance query returns that length, for the same candidate',
        'Dubins and Reeds-Shepp: the two sides of every selection comparison differ by the difference of their path lengths'])

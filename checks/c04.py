"""C04: scaling of the problem."""
import relate, relations


def run(ctx):
    return relations.run(ctx, [relate.SCALE], 500, 10)

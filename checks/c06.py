"""C06: mirror image, reversal of driving direction, exchange of start and goal."""
import relate, relations


def run(ctx):
    return relations.run(ctx, [relate.MIRROR, relate.REVERSE, relate.SWAP], 450, 5)

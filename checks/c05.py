"""C05: choice of the coordinate frame and of the representation of headings."""
import relate, relations


def run(ctx):
    return relations.run(ctx, [relate.RIGID, relate.PERIOD], 450, 8)

"""C08: the types of an imported graph are those of the values that occur."""
import wiring


def run(ctx):
    return wiring.check(ctx, "C08")

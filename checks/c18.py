"""C18: after a simplifying import only contributing nodes remain in the main graph."""
import wiring


def run(ctx):
    return wiring.check(ctx, "C18")

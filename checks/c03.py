"""C03: every imported graph is completely and uniquely wired: each node reads what the model's node reads."""
import wiring


def run(ctx):
    return wiring.check(ctx, "C03")

"""C10: however a model is opened, whatever was done before, the graph is the same."""
import sessions


def run(ctx):
    ctx.build_driver()
    return "model_checking", sessions.check(ctx, ("import",))

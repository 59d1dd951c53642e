"""C13: If, Loop and Scan run as specified: the branch taken, the iterations done, the values carried, captured and collected."""
import e2e, models


def run(ctx):
    ctx.build_driver()
    cases = models.control(ctx)
    n = 0
    for c, v, verdict, text, rs in e2e.run_cases(ctx, cases):
        d = models.key(c)
        ctx.count(f"{c['id'].split('/')[0]}:{verdict}")
        n += 1
        if verdict != "ok":
            ctx.violation(f"{verdict} {d}", {"case": c, "variant": v, "what": text, "source": open(rs).read() if rs else None})
        elif v == "on":
            ctx.sample({"model": d, "inputs": e2e.feed(c)[:200], "outputs": [[o["n"], o["x"]["s"], e2e.values(o["x"])[:6]] for o in c["outs"]]})
    ctx.cov["models"] = len(cases)
    ctx.assumptions += ["the generated code runs against a stand-in of the burn API (stubs/), whose fidelity rests on the repository's own model tests passing against it"]
    return "model_checking", n

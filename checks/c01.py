"""C01: the generated code (without simplification) computes what the operator specification defines."""
import e2e, models

OFF = (("off", {"simplify": False}),)


def run(ctx):
    ctx.build_driver()
    cases = models.all_cases(ctx)
    known_refused = models.unsupported()
    n = 0
    for c, v, verdict, text, rs in e2e.run_cases(ctx, cases, OFF):
        d = models.key(c)
        ctx.count(f"{c['id'].split('/')[0]}:{verdict}")
        if verdict == "refused":
            if d not in known_refused:
                ctx.violation(f"refused {d}", {"case": c, "why": text})
            continue
        n += 1
        if verdict != "ok":
            ctx.violation(f"{verdict} {d}", {"case": c, "what": text, "source": open(rs).read() if rs else None})
        elif len(c["ins"]) > 1:
            ctx.sample({"model": d, "inputs": e2e.feed(c)[:200], "outputs": [[o["n"], o["x"]["s"], e2e.values(o["x"])[:6]] for o in c["outs"]]})
    ctx.cov["models"] = len(cases)
    ctx.assumptions += ["the generated code runs against a stand-in of the burn API (stubs/), whose fidelity rests on the repository's own model tests passing against it",
                        "floating point results are compared with a relative tolerance of 2e-4"]
    return "model_checking", n

"""C15: whatever is generated compiles."""
import e2e, models


def run(ctx):
    ctx.build_driver()
    cases = models.all_cases(ctx)
    n = 0
    for c, v, verdict, text, rs in e2e.run_cases(ctx, cases):
        d = models.key(c)
        ctx.count(f"{v}:{'refused' if verdict == 'refused' else 'does not compile' if verdict == 'nocompile' else 'compiles'}")
        if verdict == "refused":
            continue
        n += 1
        if verdict == "nocompile":
            ctx.violation(f"nocompile {d}", {"case": c, "simplified": v, "errors": text, "source": open(rs).read()})
        else:
            ctx.sample({"model": d, "simplify": v})
    ctx.cov["models"] = len(cases)
    ctx.assumptions += ["the generated code is compiled against a stand-in of the burn API (stubs/), as permissive as the API where that was not known"]
    return "model_checking", n

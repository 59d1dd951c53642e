"""C02: simplification never changes what a model computes."""
import e2e, models


def run(ctx):
    ctx.build_driver()
    cases = models.all_cases(ctx)
    by = {}
    for c, v, verdict, text, rs in e2e.run_cases(ctx, cases):
        by.setdefault(c["id"], {})[v] = (c, verdict, text, rs)
    n = 0
    for r in by.values():
        (c, off, t0, rs0), (_, on, t1, rs1) = r["off"], r["on"]
        same = rs0 == rs1
        ctx.count("refused" if off == "refused" else "same code" if same else "other code")
        if off == "refused":
            continue
        n += 1
        d = models.key(c)
        # 'wrong' alone is C01's business: here the two must agree
        if on == "refused" or (on, t1) != (off, t0) and off in ("ok", "wrong"):
            ctx.violation(f"{off} but simplified {on} {d}", {"case": c, "plain": t0, "simplified": t1, "source": open(rs1).read() if rs1 else None})
        elif not same:
            ctx.sample({"model": d, "verdicts": [off, on]})
    ctx.cov["models"] = len(cases)
    return "model_checking", n

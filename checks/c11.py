"""C11: the same model gives the same code and weights, whenever and wherever it is generated."""
import json
import e2e, models, sessions
from core import ToolError


def run(ctx):
    ctx.build_driver()
    n = sessions.check(ctx, ("gen",))
    # every model of the specifications, again and again: the same requests go to processes of their own, in other orders
    cases = models.all_cases(ctx)
    rounds = 6 if ctx.thorough else 3
    seen = {}
    res = sessions.Results()
    d = f"{ctx.dir}/again"
    import os
    os.makedirs(d)
    for k, c in enumerate(cases):
        with open(f"{d}/{k}.onnx", "wb") as fh:
            fh.write(e2e.encode(c))
    for r in range(rounds):
        # the output directory has the same name in every round, as it is written into the code
        os.makedirs(f"{d}/r{r}/out")
        order = list(range(len(cases)))
        if r % 2:
            order.reverse()
        reqs = [{"cmd": "gen", "inputs": [f"{d}/{k}.onnx"], "out_dir": "out", "simplify": s} for k in order for s in (False, True)]
        # both settings write the same file: collect after each
        for s in (False, True):
            part = [q for q in reqs if q["simplify"] == s]
            ans = ctx.drive(part, cwd=f"{d}/r{r}")
            for q, a in zip(part, ans):
                k = int(os.path.basename(q["inputs"][0])[:-5])
                if a["res"] == "ok":
                    a["files"] = {}
                    for x in ("rs", "bpk"):
                        with open(f"{d}/r{r}/out/{k}.{x}", "rb") as fh:
                            a["files"][x] = fh.read().decode("latin-1")
                a.pop("id", None)
                seen.setdefault((k, s), []).append(res.number(a))
    items = [{"id": j, "seen": v} for j, v in enumerate(seen.values())]
    p = f"{ctx.dir}/again.json"
    with open(p, "w") as fh:
        json.dump(items, fh)
    said = {x["id"]: x["results"] for x in sessions.tlc(ctx, "again", p, 1, ("gen",), init="RJInit", next_="Stop", invariants=["RJEmit"])}
    if len(said) != len(items):
        raise ToolError("not all repetitions judged")
    for j, ((k, s), v) in enumerate(seen.items()):
        n += 1
        ctx.count("repeated:" + ("same" if said[j] == 1 else "differs"))
        if said[j] != 1:
            w = [res.what[x][:20000] if x > 0 else str(x) for x in sorted(set(v))]
            ctx.violation(f"{len(w)} results of {models.key(cases[k])}", {"case": cases[k], "simplify": s, "results": w})
    ctx.cov["models"] = len(cases)
    ctx.cov["rounds"] = rounds
    return "model_checking", n

"""C12: whatever the values of a model are called, its names become legal, distinct identifiers and it computes the same."""
import copy
import json
import e2e, models, wiring
from core import ToolError


OFF = (("off", {"simplify": False}),)


def rename(c, ren):
    """The model with other names; names not mentioned stay. Scopes are renamed alike, as the same name may stand for a captured value."""
    f = lambda n: ren.get(n, n)

    def nodes(ns):
        for n in ns:
            n["in"] = [f(x) for x in n["in"]]
            n["out"] = [f(x) for x in n["out"]]
            for a in (n["at"] or {}).values():
                if a["ty"] == "g":
                    g = a["v"]
                    nodes(g["nodes"])
                    g["ins"] = [f(x) for x in g["ins"]]
                    g["outs"] = [f(x) for x in g["outs"]]
                    for i in g.get("inits") or []:
                        i["n"] = f(i["n"])
                    g["types"] = {f(k): v for k, v in (g.get("types") or {}).items()}
    c = copy.deepcopy(c)
    nodes(c["nodes"])
    for i in c["ins"] + c["inits"] + c["outs"]:
        i["n"] = f(i["n"])
    return c


def names(g, out):
    """Names of a graph that stand for values made there."""
    for a in g["inputs"]:
        out.append(a["name"])
    for n in g["nodes"]:
        for o in n["outputs"]:
            if o["name"] or n["op"] == "?":
                out.append(o["name"])
    return out


def run(ctx):
    ctx.build_driver()
    base = {"Family": '"if"', "AllModes": "FALSE", "File": '""'}
    t = ctx.tlc("Names", base, init="TplInit", next_="RenNext", invariants=["TplEmit"], tag="names-templates")
    r = ctx.tlc("Names", base, init="RenInit", next_="RenNext", invariants=["RenEmit"], tag="names")
    for e in (t, r):
        if e.error:
            raise ToolError(e.error)
    tpl = {x["tpl"]: x["case"] for x in t}
    cases = []
    # Every single name for one model of every kind of node; of the others and of the pairs, one in so many.
    every = {"quick": 19, "thorough": 5}[ctx.tier]
    for k, x in enumerate(sorted(r, key=lambda x: (x["tpl"], json.dumps(x["ren"], sort_keys=True)))):
        if (k + ctx.seed) % every and (x["tpl"] not in ("straight",) or len(x["ren"] or {}) > 1):
            continue
        ren = {s: v["word"] or "".join(map(chr, v["codes"])) for s, v in (x["ren"] or {}).items()}
        if set(ren.values()) & (set(next(y["slots"] for y in t if y["tpl"] == x["tpl"])) - set(ren)):
            continue
        c = rename(tpl[x["tpl"]], ren)
        c["id"] = f"program-{x['tpl']}/{len(cases)}"
        c["what"] = f"{x['tpl']}: " + (", ".join(f"{s} called {json.dumps(n if len(n) < 60 else n[:8] + '...')}" for s, n in sorted(ren.items())) or "as it is")
        cases.append(c)
    ctx.log(f"TLC gave {len(cases)} sets of names to {len(tpl)} models")
    # models of one operator, every operand called like a variable of the generated code
    ops = {}
    for c in models.one_op_cases(ctx, ["index", "shape", "move", "norm", "misc", "rnn", "reduce", "matmul", "where", "variadic"], modes=False):
        ops.setdefault((c["nodes"][-1]["op"], len(c["ins"])), c)
    ops = [c for _, c in sorted(ops.items()) if c["ins"]]
    sound = {c["id"] for c, _, verdict, _, _ in e2e.run_cases(ctx, ops, OFF, "plain") if verdict == "ok"}
    ops = [c for c in ops if c["id"] in sound]
    p = f"{ctx.dir}/ops.json"
    with open(p, "w") as fh:
        json.dump([{"slots": [i["n"] for i in c["ins"]]} for c in ops], fh)
    r = ctx.tlc("Names", {**base, "File": f'"{p}"'}, init="LocInit", next_="RenNext", invariants=["RenEmit"], tag="names-locals")
    if r.error:
        raise ToolError(r.error)
    every = {"quick": 5, "thorough": 1}[ctx.tier]
    for k, x in enumerate(sorted(r, key=lambda x: (x["tpl"], json.dumps(x["ren"], sort_keys=True)))):
        if (k + ctx.seed) % every:
            continue
        t = ops[x["tpl"] - 1]
        ren = {s: v["word"] for s, v in x["ren"].items()}
        if set(ren.values()) & {i["n"] for i in t["ins"]}:
            continue
        c = rename(t, ren)
        c["id"] = f"program-op/{len(cases)}"
        c["what"] = f"{models.key(t)}: " + ", ".join(f"{s} called {json.dumps(n)}" for s, n in ren.items())
        cases.append(c)
    ctx.log(f"{len(ops)} models of one operator, {len(cases)} in all")
    # the names of the imported graphs
    got = wiring.imports(ctx, cases, (True,))
    files = []
    for k, (c, s, a) in enumerate(got):
        ctx.count(f"import:{a['res']}")
        if a["res"] == "ok":
            files.append({"id": k, "names": [[ord(ch) for ch in n] for n in names(a["graph"], [])]})
    p = f"{ctx.dir}/names.json"
    with open(p, "w") as fh:
        json.dump(files, fh)
    j = ctx.tlc("Names", {**base, "File": f'"{p}"'}, init="JInit", next_="RenNext", invariants=["JEmit"], tag="names-judge")
    if j.error or len(j) != len(files):
        raise ToolError(j.error or "not all names judged")
    at = {f["id"]: f for f in files}
    for v in j:
        ns = ["".join(map(chr, n)) for n in at[v["id"]]["names"]]
        for what, ks in (("is no identifier", v["bad"]), ("stands for two values", v["twice"])):
            for k in ks:
                ctx.violation(f"name {what}: {got[v['id']][0]['what']}", {"name": ns[k - 1], "names": ns})
    # what the models compute
    n = 0
    for c, v, verdict, text, rs in e2e.run_cases(ctx, cases):
        n += 1
        ctx.count(f"run:{verdict}")
        if verdict != "ok":
            ctx.violation(f"{verdict}: {c['what']}", {"variant": v, "what": text, "source": open(rs).read() if rs else None})
        elif v == "on":
            ctx.sample({"model": c["what"], "outputs": len(c["outs"])})
    ctx.cov["models"] = len(tpl) + len(ops)
    ctx.cov["names given"] = len(cases)
    return "model_checking", n

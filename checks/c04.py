"""C04: the interface of a model survives import and generation."""
import concurrent.futures as cf
import json
import os
import re
import e2e, models
from core import NCPU, ToolError

BASE = {"Family": '"if"', "AllModes": "FALSE", "File": '""', "Steps": 1}


def tlc(ctx, tag, **kw):
    const = {**BASE, **kw.pop("const", {})}
    r = ctx.tlc("Interface", const, tag=tag, **kw)
    if r.error:
        raise ToolError(f"{tag}: {r.error}")
    return list(r)


def form(t):
    """A type of the generated code: what it is and its rank, length or nothing."""
    t = re.sub(r"\s", "", t)
    m = re.fullmatch(r"Tensor<B,(\d+)(?:,(Int|Bool|Float))?,?>", t)
    if m:
        return {"f": (m[2] or "Float").lower(), "r": int(m[1])}
    m = re.fullmatch(r"\[i64;(\d+)\]", t)
    if m:
        return {"f": "shape", "r": int(m[1])}
    return {"f": t, "r": 0}


def split(t):
    out, depth, cur = [], 0, ""
    for ch in t:
        depth += ch in "<([" 
        depth -= ch in ">)]"
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return [x for x in out + [cur] if x.strip()]


def signature(text):
    """Parameters and results of the generated forward."""
    a = text.index("pub fn forward(") + len("pub fn forward(")
    depth, b = 1, a
    while depth:
        depth += text[b] == "("
        depth -= text[b] == ")"
        b += 1
    params = []
    for p in split(text[a:b - 1]):
        n, _, t = p.partition(":")
        if n.strip() != "&self":
            params.append({"n": n.strip(), **form(t)})
    rest = text[b:text.index("{", b)].strip()
    if not rest.startswith("->"):
        return params, []
    rest = rest[2:].strip()
    return params, [{"n": "", **form(t)} for t in (split(rest[1:-1]) if rest.startswith("(") else [rest])]


def run(ctx):
    ctx.build_driver()
    made = tlc(ctx, "small", init="SInit", next_="SNext", invariants=["EmitM"])
    for steps in ((4, 7, 9, 12, 15) if ctx.thorough else (5, 9, 12)):
        made += tlc(ctx, f"grown-{steps}", init="GInit", next_="GNext", invariants=["EmitReady"], const={"Steps": steps},
                    simulate=900 if ctx.thorough else 150, depth=steps + 3, workers=1)
    # the other specifications' models have interfaces too
    todo = [(dict(x["case"], listed=x["listed"]), x["listed"]) for x in made]
    n_own = len(todo)
    todo += [(c, []) for c in models.all_cases(ctx)]
    d = f"{ctx.dir}/iface"
    os.makedirs(d)
    reqs, own = [], []
    for k, (c, l) in enumerate(todo):
        p = f"{d}/m{k}.onnx"
        with open(p, "wb") as fh:
            fh.write(e2e.encode(c))
        for s in (False, True):
            os.makedirs(f"{d}/{int(s)}", exist_ok=True)
            reqs += [{"cmd": "ir", "path": p, "simplify": s}, {"cmd": "gen", "inputs": [p], "out_dir": f"{d}/{int(s)}", "simplify": s}]
            own.append((k, s))
    ans = ctx.drive(reqs)
    items = []
    for j, (k, s) in enumerate(own):
        c, _ = todo[k]
        ir, gen = ans[2 * j], ans[2 * j + 1]
        if ir["res"] != "ok" or gen["res"] != "ok":
            ctx.count("refused")
            if k < n_own:
                m = (ir if ir["res"] != "ok" else gen).get("msg", "")
                ctx.violation(f"refused: {m.strip().splitlines()[0][:120] if m.strip() else '?'}", {"case": c, "simplify": s, "msg": m, "program": e2e.program(c)})
            continue
        with open(f"{d}/{int(s)}/m{k}.rs") as fh:
            params, results = signature(fh.read())

        def decl(v):
            return [{"n": i["n"], "t": i["x"]["t"], "s": i["x"]["s"]} for i in v]

        def got(v):
            return [{"n": a["name"], "k": a["ty"]["k"], "t": a["ty"]["dtype"].split("(")[0], "r": a["ty"]["rank"]} for a in v]
        # (what the values of the other specifications' models are is C08's)
        items.append({"id": j, "all": k < n_own, "ins": decl(c["ins"]), "outs": decl(c["outs"]), "gotIns": got(ir["graph"]["inputs"]), "gotOuts": got(ir["graph"]["outputs"]),
                      "params": params, "results": results})
    paths = []
    for i in range(NCPU):
        p = f"{ctx.dir}/iface-{i}.json"
        with open(p, "w") as fh:
            json.dump(items[i::NCPU], fh)
        if items[i::NCPU]:
            paths.append(p)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        said = [x for part in ex.map(lambda p: tlc(ctx, os.path.basename(p)[:-5], init="JInit", next_="SNext", invariants=["JEmit"], const={"File": f'"{p}"'}, workers=1, heap="2g"), paths) for x in part]
    said = {x["id"]: x["say"] for x in said}
    if len(said) != len(items):
        raise ToolError("not all interfaces judged")
    for it in items:
        k, s = own[it["id"]]
        c, l = todo[k]
        ctx.count(f"{len(it['ins'])} in, {len(it['outs'])} out" + (", listed" if l else ""))
        for x in sorted(said[it["id"]]):
            ctx.violation(f"{x}: {models.key(c) if k >= n_own else e2e.program(c)[:100]}", {"case": c, "listed": l, "simplify": s, **it})
    # what the generated code computes
    n = len(items)
    # (native scalars of type f16 need a crate that is not here)
    some = [c for c, _ in todo[:n_own] if not any(i["x"]["t"] == "F16" and i["x"]["s"] == [] for i in c["ins"] + c["outs"])]
    if not ctx.thorough:
        some = some[::3]
    for c, v, verdict, text, rs in e2e.run_cases(ctx, some):
        ctx.count(f"run: {verdict}")
        n += 1
        if verdict != "ok":
            ctx.violation(f"{verdict} {e2e.program(c)[:150]}", {"case": c, "variant": v, "what": text, "source": open(rs).read() if rs else None})
    ctx.cov["models"] = len(todo)
    return "model_checking", n

"""C09: what cannot be imported is refused with an error, and nothing else is."""
import concurrent.futures as cf
import json
import os
import e2e, models, onnxenc
from core import NCPU, ToolError
from onnxenc import ld, vi

PER_OP = 6
PASSED_ON = {"GlobalMaxPool"}  # operators the graph has as they are, and the generator refuses (C11)


def form(c):
    n = c["nodes"][-1]
    return (n["op"], tuple(sorted(n["at"] or {})), tuple(i != "" for i in n["in"]), tuple((k["n"] in [q["n"] for q in c["inits"]]) for k in c["ins"]), c["opset"])


def dressed(ns):
    out = []
    for n in ns:
        at = {}
        for k, a in (n["at"] or {}).items():
            at[k] = dict(a, v=dict(a["v"], nodes=dressed(a["v"]["nodes"]))) if a["ty"] == "g" else a
        out.append({"op": n["op"], "in": list(n["in"]), "out": list(n["out"]), "at": at, "dom": "", "name": n["out"][0] + "_node", "doc": ""})
    return out


def written(c):
    return json.dumps({k: c[k] for k in ("opset", "nodes", "inits", "ins", "outs")}, sort_keys=True)


def bases(ctx):
    """Models of every operator and form, of a size to make many changes to, as the specification wants them."""
    took, out = {}, []
    for c in sorted(models.one_op_cases(ctx, modes=False), key=written):
        f = form(c)
        if f in took or sum(1 for q in took if q[0] == f[0]) >= PER_OP * (3 if ctx.thorough else 1):
            continue
        took[f] = True
        if f[0] not in PASSED_ON:
            out.append(c)
    few = {}
    for c in sorted(models.control(ctx) + (models.programs(ctx, depth=3) if ctx.thorough else []) + models.patterns(ctx), key=written):
        k = (c["id"].split("/")[0], tuple(n["op"] for n in c["nodes"]))
        if k not in few and sum(1 for q in few if q[0] == k[0]) < (12 if ctx.thorough else 4):
            few[k] = True
            out.append(c)
    return [{"id": c["id"], "opsets": [{"d": "", "v": c["opset"]}], "nodes": dressed(c["nodes"]), "inits": c["inits"], "ins": c["ins"],
             "outs": c["outs"], "notes": []} for c in out]


def encode(m):
    def attrs(at):
        at = at or {}
        plain = e2e.attrs({k: a for k, a in at.items() if a["ty"] != "g"})
        return plain + [{"name": k, "type": "g", "v": sub(a["v"])} for k, a in sorted(at.items()) if a["ty"] == "g"]

    def sub(g):
        ty = g.get("types") or {}
        return {"nodes": nodes(g["nodes"]), "inits": [e2e.tens(i["x"], i["n"]) for i in g.get("inits") or []],
                "inputs": [e2e.info(n, ty.get(n) if ty else None) for n in g.get("ins") or []],
                "outputs": [e2e.info(n, ty.get(n) if ty else None) for n in g["outs"]], "name": "body"}

    def nodes(ns):
        return [{"op": n["op"], "in": list(n["in"]), "out": list(n["out"]), "name": n["name"], "domain": n["dom"], "doc": n["doc"], "attrs": attrs(n["at"])} for n in ns]
    notes = list(m["notes"] or [])
    dyn = any(i.get("dyn") for i in m["ins"])
    g = {"nodes": nodes(m["nodes"]), "inits": [e2e.tens(i["x"], i["n"]) for i in m["inits"]], "inputs": [e2e.info(i["n"], i["x"], i.get("dyn")) for i in m["ins"]],
         "outputs": [e2e.info(o["n"], o["x"], dyn or o.get("dyn")) for o in m["outs"]], "opset": [[q["d"], q["v"]] for q in m["opsets"]]}
    if "producer" in notes:
        g["producer"] = "someone else, version ü"
    if "old format" in notes:
        g["ir_version"] = 4
    if "graph name" in notes:
        g["name"] = ""
    if "value info" in notes:
        g["infos"] = [{"name": o["n"], "dtype": o["x"]["t"], "shape": o["x"]["s"]} for o in m["outs"]]
    if "unknown value info" in notes:
        g["infos"] = [{"name": "nobody", "dtype": "F32", "shape": [2]}]
    b = onnxenc.model(g)
    if "documentation" in notes:
        b = ld(6, "what this is") + b
    if "properties" in notes:
        b += ld(14, ld(1, "key") + ld(2, "value")) + ld(14, ld(1, "key") + ld(2, "other"))
    if "empty domain" in notes:
        b += ld(4, "")
    if "model version" in notes:
        b += vi(5, 7)
    if "unknown field" in notes:
        b += ld(77, "later versions may have more") + vi(78, 5)
    return b


def outcomes(ctx, blobs, tag, entry="file"):
    d = f"{ctx.dir}/{tag}"
    os.makedirs(d)
    reqs = []
    for k, x in enumerate(blobs):
        p = f"{d}/{k}.onnx"
        with open(p, "wb") as fh:
            fh.write(x)
        for s in (False, True):
            reqs.append({"cmd": "ir", "path": p, "simplify": s, "entry": entry})
    a = ctx.drive(reqs, timeout=300)
    return [(a[2 * k], a[2 * k + 1]) for k in range(len(blobs))]


def run(ctx):
    ctx.build_driver()
    base = bases(ctx)
    got = outcomes(ctx, [encode(b) for b in base], "base")
    ctx.cov["not accepted unchanged"] = sorted({"+".join(n["op"] for n in b["nodes"]) + ": " + x["msg"][:150] for b, g in zip(base, got) for x in g if x["res"] != "ok"})
    base = [b for b, g in zip(base, got) if all(x["res"] == "ok" for x in g)]
    ctx.log(f"{len(base)} of {len(got)} models are accepted")
    ctx.cov["models"] = len(base)
    # the rules for an operator come from all models: each part gets all, and changes its own
    n = NCPU * 2
    paths = []
    for i in range(n):
        # operators stay together, so that what every model of one has in common is known
        part = [b for b in base if hash_op(b) % n == i]
        if part:
            p = f"{ctx.dir}/base-{i}.json"
            with open(p, "w") as fh:
                json.dump(part, fh)
            paths.append((p, part))

    def one(x):
        r = ctx.tlc("Refusals", {"File": f'"{x[0]}"', "Depth": 1}, invariants=["Emit", "BaseValid"], tag=os.path.basename(x[0])[:-5], workers=1, heap="2g")
        if r.error:
            raise ToolError(f"Refusals: {r.error}")
        return [(x[1][e["b"] - 1], e) for e in r]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        todo = [e for part in ex.map(one, paths) for e in part]
    ctx.log(f"TLC changed them in {len(todo)} ways")
    num = 0
    ans = outcomes(ctx, [encode(e["m"]) for _, e in todo], "changed")
    for (b, e), got in zip(todo, ans):
        for s, a in zip((False, True), got):
            num += 1
            res = {"ok": "accepted", "err": "refused", "panic": "refused"}.get(a["res"], a.get("msg", "?"))
            ctx.count(f"{e['expect']}: {res}")
            ctx.count(f"report by {a['res']}") if res == "refused" else None
            what = f"{'; '.join(e['done'])} in {'+'.join(n['op'] for n in b['nodes'])}"
            if res not in ("accepted", "refused"):
                ctx.violation(f"{res}: {what}", {"model": e["m"], "simplify": s, "answer": a})
            elif e["expect"] == "refuse" and res == "accepted":
                ctx.violation(f"accepted: {what}", {"model": e["m"], "simplify": s, "graph": a["graph"]})
            elif e["expect"] == "accept" and res == "refused":
                ctx.violation(f"refused: {what}", {"model": e["m"], "simplify": s, "why": a["msg"]})
    return "model_checking", num + damaged(ctx)


def damaged(ctx):
    """Files with bytes lost, doubled, changed or cut off; the specification tells which are no models at all."""
    def small(nodes, opset, ins, outs, inits=()):
        return {"opsets": [{"d": "", "v": opset}], "nodes": nodes, "inits": list(inits), "ins": ins, "outs": outs, "notes": ["properties"]}

    def node(op, i, o, at=None, name="n"):
        return {"op": op, "in": i, "out": o, "at": at or {}, "dom": "", "name": name, "doc": ""}

    def x(n, t, *shape):
        num = {"F32": [{"k": "q", "n": 1, "d": 2}], "I64": [{"k": "q", "n": 1, "d": 1}], "Bool": [{"k": "q", "n": 1, "d": 1}]}[t]
        size = 1
        for q in shape:
            size *= q
        return {"n": n, "x": {"t": t, "s": list(shape), "v": num * size}, "dyn": False}
    files = [
        encode(small([node("Relu", ["x"], ["y"], name="é")], 16, [x("x", "F32", 2)], [x("y", "F32", 2)])),
        encode(small([node("Softmax", ["x"], ["y"], {"axis": {"ty": "i", "v": -1}})], 16, [x("x", "F32", 1, 2)], [x("y", "F32", 1, 2)])),
        encode(small([node("Add", ["x", "w"], ["y"])], 16, [x("x", "F32", 2)], [x("y", "F32", 2)], [x("w", "F32", 2)])),
        encode(small([node("Transpose", ["x"], ["y"], {"perm": {"ty": "ints", "v": [1, 0]}})], 13, [x("x", "F32", 1, 2)], [x("y", "F32", 2, 1)])),
        encode(small([node("Elu", ["x"], ["y"], {"alpha": {"ty": "f", "v": {"k": "q", "n": 1, "d": 2}}})], 13, [x("x", "F32", 2)], [x("y", "F32", 2)])),
        encode(small([node("Reshape", ["x", "s"], ["y"])], 14, [x("x", "F32", 2)], [x("y", "F32", 1)], [x("s", "I64", 1)])),
        encode(small([node("DepthToSpace", ["x"], ["y"], {"blocksize": {"ty": "i", "v": 1}, "mode": {"ty": "s", "v": "CRD"}})], 13, [x("x", "F32", 1, 1, 1, 1)], [x("y", "F32", 1, 1, 1, 1)])),
        encode(small([node("If", ["c"], ["y"], {k: {"ty": "g", "v": {"ins": [], "outs": ["z"], "nodes": [node("Neg", ["x"], ["z"])], "inits": []}} for k in ("then_branch", "else_branch")})],
                     16, [x("c", "Bool"), x("x", "F32", 1)], [x("y", "F32", 1)])),
    ]
    todo = []

    def one(k):
        p = f"{ctx.dir}/wire-{k}.json"
        with open(p, "w") as fh:
            json.dump([list(files[k])], fh)
        if ctx.thorough and k < 4:
            r = ctx.tlc("Wire", {"File": f'"{p}"', "Depth": 3}, invariants=["Emit", "BaseIsModel"], tag=f"wire-{k}", workers=1, heap="3g", simulate=1500)
        else:
            r = ctx.tlc("Wire", {"File": f'"{p}"', "Depth": 1}, invariants=["Emit", "BaseIsModel"], tag=f"wire-{k}", workers=1, heap="3g")
        if r.error:
            raise ToolError(f"Wire: {r.error}")
        return list(r)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for r in ex.map(one, range(len(files))):
            todo += r
    ctx.log(f"TLC damaged files in {len(todo)} ways")
    d = f"{ctx.dir}/damaged"
    os.makedirs(d)
    reqs = []
    for k, e in enumerate(todo):
        with open(f"{d}/{k}.onnx", "wb") as fh:
            fh.write(bytes(e["x"]))
        reqs.append({"cmd": "ir", "path": f"{d}/{k}.onnx", "simplify": k % 2 == 0, "entry": ("file", "bytes", "reader")[k % 3]})
    for e, a in zip(todo, ctx.drive(reqs, timeout=300)):
        res = {"ok": "accepted", "err": "refused", "panic": "refused"}.get(a["res"], a.get("msg", "?"))
        ctx.count(f"damaged, {e['expect']}: {res}")
        rec = {"bytes": bytes(e["x"]).hex(), "change": e["done"], "answer": {k: v for k, v in a.items() if k != "graph"}}
        if res not in ("accepted", "refused"):
            ctx.violation(f"{res}: file with {'; '.join(e['done'])}", rec)
        elif e["expect"] == "refuse" and res == "accepted":
            ctx.violation(f"accepted: no model{', last field longer than the file' if e['over'] else ''}, file with {'; '.join(e['done'])}", rec)
        elif e["expect"] == "accept" and res == "refused":
            ctx.violation(f"refused: model, file with {'; '.join(e['done'])}", rec)
    return len(todo)


def hash_op(b):
    return sum(map(ord, b["nodes"][-1]["op"] if len(b["nodes"]) < 4 and "program" not in b["id"] and not any(a["ty"] == "g" for n in b["nodes"] for a in n["at"].values()) else b["id"].split("/")[0]))

"""C16: the weights file and the module fit each other, whatever the layers, wherever they are, however they are loaded."""
import json
import struct
import e2e, models
from core import ToolError

LAYERS = {"Gemm", "MatMul", "Conv", "ConvTranspose", "BatchNormalization", "InstanceNormalization", "GroupNormalization", "LayerNormalization", "PRelu",
          "LSTM", "GRU", "RNN", "DeformConv", "Linear", "Add", "Where", "Gather", "Expand"}
PLAIN = {"Add", "Where", "Gather", "Expand"}     # operators whose constant operands become parameters of their own: a few of each
FMT = {"F32": "f", "F64": "d", "I64": "q", "I32": "i", "I16": "h", "I8": "b", "U64": "Q", "U32": "I", "U16": "H", "U8": "B", "F16": "e", "Bool": "?"}
VAR = (("file-off", {"simplify": False}), ("file-on", {"simplify": True}), ("embed-off", {"simplify": False, "embed": True}), ("embed-on", {"simplify": True, "embed": True}))


def layers(ctx):
    """Models of one layer, all operands but one of which are initializers."""
    got = {}
    cases = models.one_op_cases(ctx, ["conv", "norm", "rnn", "matmul", "variadic", "where", "index", "arith2"], modes=True)
    per = {}
    for c in cases:
        n = c["nodes"][-1]
        if n["op"] not in LAYERS or len(c["ins"]) != 1 or not (c["inits"] or len(c["nodes"]) > 1) or any(m["op"] != "Constant" for m in c["nodes"][:-1]) or c["ins"][0].get("dyn") or c["ins"][0]["n"] != n["in"][0]:
            continue
        if c["outs"][0]["x"]["t"] != "F32" or not c["outs"][0]["x"]["s"] or any(x["k"] not in "qf" for x in c["outs"][0]["x"]["v"]) or c["outs"][0]["n"] != n["out"][0]:
            continue
        most = 2 if n["op"] in PLAIN else 12 if ctx.thorough else 3
        # what decides the parameters: which operands there are, of which shape, and the attributes
        k = (n["op"], len(c["inits"]), len(c["nodes"]), tuple(sorted(n["at"] or {})), tuple(tuple(i["x"]["s"]) for i in c["inits"]))
        q = (n["op"], len(c["ins"][0]["x"]["s"]), len(c["inits"]), len(c["nodes"]))
        if k in got or per.setdefault(q, 0) >= most:
            continue
        per[q] += 1
        got[k] = c
    return list(got.values())


def decode(t):
    b, d = bytes.fromhex(t["hex"]), t["dtype"]
    if d == "BF16":
        return [struct.unpack("<f", b"\0\0" + b[i:i + 2])[0] for i in range(0, len(b), 2)]
    return [float(x) if d in ("F32", "F64", "F16") else int(x) for x in struct.unpack(f"<{len(b) // struct.calcsize(FMT[d])}{FMT[d]}", b)]


def run(ctx):
    ctx.build_driver()
    base = {"Family": '"if"', "AllModes": "FALSE"}

    def tlc(tag, file, **kw):
        r = ctx.tlc("Weights", {**base, "File": f'"{file}"'}, tag=tag, next_=kw.pop("next_", "WStop"), **kw)
        if r.error:
            raise ToolError(f"{tag}: {r.error}")
        return list(r)
    ops = layers(ctx)
    # only layers the code imports and computes right by themselves: where it does not is the business of other properties
    sound = {}
    for c, v, verdict, _, _ in e2e.run_cases(ctx, ops, (("off", {"simplify": False}), ("on", {"simplify": True})), "plain"):
        sound.setdefault(c["id"], []).append(verdict)
    ops = [c for c in ops if set(sound[c["id"]]) == {"ok"}]
    for c in ops:
        ctx.count("layer " + c["nodes"][-1]["op"])
    p = f"{ctx.dir}/layers.json"
    with open(p, "w") as fh:
        json.dump([{k: [dict(n, at=n["at"] or {"none": {"ty": "i", "v": 0}}) for n in c[k]] if k == "nodes" else c[k] for k in ("ins", "inits", "nodes", "outs")} for c in ops], fh)
    cases = []
    for x in tlc("weights-places", p, init="PInit", invariants=["PEmit"]):
        c = x["case"]
        o = ops[x["k"] - 1]
        c["opset"] = o["opset"]

        def strip(ns):
            for n in ns:
                if n["at"] and "none" in n["at"]:
                    n["at"] = {}
                for a in (n["at"] or {}).values():
                    if a["ty"] == "g":
                        strip(a["v"]["nodes"])
        strip(c["nodes"])
        c["id"] = f"program-{x['place']}/{len(cases)}"
        c["what"] = f"{x['place']} of {models.key(o)}"
        cases.append(c)
    plans = {e: [h for h in tlc("weights-loads", "", init="LInit", next_="LNext", invariants=["LEmit"]) if h[0]["embed"] == e] for e in (False, True)}
    pl = e2e.Pipeline(ctx, "weights")
    gens = pl.generate([e2e.encode(c) for c in cases], VAR)
    jobs, owner = [], []
    for k, (c, g) in enumerate(zip(cases, gens)):
        for j, (v, _) in enumerate(VAR):
            # in the quick tier, every model in two of the four ways
            if not ctx.thorough and j % 2 != (k + j // 2) % 2:
                continue
            r = g[v]
            ctx.count(f"generate:{r['res']}")
            if r["res"] != "ok":
                ctx.violation(f"is refused: {c['what']} [{v}]", {"message": r.get("msg")})
                continue
            embed = v.startswith("embed")
            plan = plans[embed][(k + ctx.seed) % len(plans[embed])]
            how = {"default": "@::Model::<B>::default()", "file": f'@::Model::<B>::from_file("{r["rs"][:-3]}.bpk", &Default::default())', "embedded": "@::Model::<B>::from_embedded(&Default::default())"}
            args = ", ".join(["arg(&mut it)"] * len(c["ins"]))
            one = '{ let mut m = %s; let p = glue::params(&mut m); let mut it = v.clone().into_iter(); let d = dump(m.forward(' + args + ')); out.push(format!("{{\\"p\\":[{}],\\"d\\":[{}]}}", p.join(","), d.join(","))); }'
            jobs.append({"rs": r["rs"], "nin": len(c["ins"]), "feeds": [e2e.feed(c)], "body": "let mut out = vec![]; " + " ".join(one % how[e["way"]] for e in plan) + " out"})
            owner.append((c, v, plan))
    ctx.log(f"{len(ops)} layers, {len(cases)} models, {len(jobs)} modules")
    pl.build_and_run(jobs)
    packs = ctx.drive([{"cmd": "pack", "path": j["rs"][:-3] + ".bpk"} for j in jobs])
    values, found, by = {}, [], {}

    def num(t, v):
        return values.setdefault((t, tuple("nan" if x != x else x for x in v)), len(values))
    for k, (j, (c, v, plan), pk) in enumerate(zip(jobs, owner, packs)):
        where = f"{c['what']} [{v}]"
        if pk["res"] != "ok":
            ctx.violation(f"no weights file: {where}", {"answer": pk})
            continue
        r = {"panic": "; ".join(j["errors"][:3])} if "errors" in j else j["runs"][0]
        if "panic" in r:
            ctx.violation(f"cannot be loaded and run: {where}", {"message": r["panic"], "model": e2e.program(c), "source": open(j["rs"]).read(), "file": pk["tensors"]})
            continue
        o = {"id": k, "written": int(pk["meta"]["stand-in:snapshots"]), "loads": [],
             "file": [{"path": n, "s": t["shape"], "t": t["dtype"], "v": num(t["dtype"], decode(t))} for n, t in sorted(pk["tensors"].items())]}
        for l in r["ok"]:
            o["loads"].append({"params": [{"path": q["path"], "s": q["x"]["s"], "t": q["x"]["t"], "v": num(q["x"]["t"], [float(x) if isinstance(x, str) else x for x in q["x"]["v"]])} for q in l["p"]],
                               "result": 1 if e2e.compare(c["outs"], l["d"]) else 0})
        ctx.count("parameters", len(o["file"]))
        found.append(o)
        by[k] = (where, j, pk, r)
    p = f"{ctx.dir}/found.json"
    with open(p, "w") as fh:
        json.dump(found, fh)
    n = 0
    for x in tlc("weights-judge", p, init="WJInit", invariants=["WJEmit"]):
        n += 1
        where, j, pk, r = by[x["id"]]
        for s in sorted(x["say"]):
            ctx.violation(f"{s}: {where}", {"file": pk["tensors"], "loads": r["ok"], "source": open(j["rs"]).read(), "wanted": owner[x["id"]][0]["outs"]})
    if n != len(found):
        raise ToolError("not all modules judged")
    ctx.sample({"model": e2e.program(owner[-1][0]), "loads": [e["way"] for e in owner[-1][2]], "file": sorted(packs[-1].get("tensors", {}))})
    ctx.cov["models"] = len(cases)
    return "model_checking", n

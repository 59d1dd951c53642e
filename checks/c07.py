"""C07: external tensor data are exactly the declared byte range."""
import os
import onnxenc
from core import ToolError

HUGE = {100: 1 << 46}


def num(x):
    if x["huge"]:
        return str(HUGE.get(x["v"], (1 << 64) - x["v"]))
    return None if x["v"] == -1 else str(x["v"])


def metadata(ctx):
    q = not ctx.thorough
    n = 0
    for maxlen, rich in [(3, "TRUE"), (4, "FALSE")] if q else [(4, "TRUE")]:
        em = ctx.tlc("ExternalMeta", {"MaxLen": maxlen, "Rich": rich}, invariants=["Meaning", "Commute"], tag=f"ExternalMeta{maxlen}", timeout=2400)
        if em.error:
            raise ToolError("the specification itself is wrong: " + em.error)
        for e, r in zip(em, ctx.drive([{"cmd": "meta", "entries": e["entries"]} for e in em])):
            n += 1
            x = e["expect"]
            got = {"res": r["res"]}
            if r["res"] == "ok":
                got.update(location=r["location"], offset=r["offset"], length=r["length"] or "none",
                           checksum="none" if r["checksum"] is None else r["checksum"])
            ctx.count("metadata:" + x["res"])
            if got != x:
                ctx.violation(f"metadata want={x['res']} got={r['res']}", {"entries": e["entries"], "expected": x, "got": r})
        ctx.sample(em[len(em) // 2], 1)
    return n


def ranges(ctx):
    q = not ctx.thorough
    em = ctx.tlc("ExternalRange", {"MaxSize": 12 if q else 33, "Rich": "FALSE" if q else "TRUE"}, invariants=["Exact"])
    if em.error:
        raise ToolError("the specification itself is wrong: " + em.error)
    n = 0
    items = list(em)
    files = {}
    for size in {e["size"] for e in items}:
        files[size] = f"f{size}.bin"
        with open(f"{ctx.dir}/{files[size]}", "wb") as fh:
            fh.write(bytes(range(size)))
    os.makedirs(f"{ctx.dir}/ranges", exist_ok=True)
    # Several tensors of one model share the file; each keeps its own range.  Tensors that must be reported come alone.
    good = [e for e in items if e["expect"]["res"] == "ok"]
    bad = [e for e in items if e["expect"]["res"] != "ok"]
    groups = []
    bysize = {}
    for e in good:
        bysize.setdefault(e["size"], []).append(e)
    for s, es in sorted(bysize.items()):
        es.sort(key=lambda e: hash((str(e["tensor"]), ctx.seed)) if False else str(sorted(e["tensor"].items(), key=str)))
        groups += [es[i::max(1, len(es) // 3)] for i in range(max(1, len(es) // 3))]
        groups += [[e] for e in es]
    groups += [[e] for e in bad]
    reqs = []
    for k, g in enumerate(groups):
        m = {"nodes": [], "inputs": [], "outputs": [], "inits": []}
        for j, e in enumerate(g):
            t = e["tensor"]
            ext = [("location", "missing.bin" if t["missing"] else files[e["size"]])]
            if num(t["offset"]) is not None:
                ext.append(("offset", num(t["offset"])))
            if num(t["length"]) is not None:
                ext.append(("length", num(t["length"])))
            ext = ext[j % len(ext):] + ext[:j % len(ext)]
            shape = [t["count"]]
            m["inputs"].append({"name": f"x{j}", "dtype": t["type"], "shape": shape})
            m["outputs"].append({"name": f"y{j}", "dtype": "Bool", "shape": shape})
            m["inits"].append({"name": f"w{j}", "dtype": t["type"], "shape": shape, "enc": "external", "external": ext})
            m["nodes"].append({"op": "Equal", "in": [f"x{j}", f"w{j}"], "out": [f"y{j}"], "name": f"n{j}"})
        path = f"{ctx.dir}/m{k}.onnx"
        with open(path, "wb") as fh:
            fh.write(onnxenc.model(m))
        reqs.append({"cmd": "ir", "path": path, "values": True, "simplify": k % 2 == 0})
    for g, rq, r in zip(groups, reqs, ctx.drive(reqs, timeout=200)):
        data = {}
        if r["res"] == "ok":
            for nd in r["graph"]["nodes"]:
                if nd["op"] == "Equal":
                    data[int(nd["outputs"][0]["name"].split("equal")[-1].split("_")[0]) - 1] = nd["inputs"][1].get("value")
        for j, e in enumerate(g):
            n += 1
            x, t = e["expect"], e["tensor"]
            v = data.get(j)
            shape_ok = v and "hex" in v and v["shape"] == [t["count"]] and v["dtype"].split("(")[0] == t["type"]
            ctx.count(f"range:{x['res']}:{'data' if v and 'hex' in v else r['res'] if r['res'] != 'ok' else 'reported on read'}")
            if r["res"] == "abort":
                ctx.violation(f"range abort {t['type']}", {"case": e, "result": r})
            elif x["res"] == "ok":
                want = bytes(x["bytes"]).hex()
                if not shape_ok or v["hex"] != want:
                    ctx.violation(f"range want=data got={v and v.get('hex') and 'other' or r['res']}", {"case": e, "group": g, "expected": want, "got": v, "result": str(r)[:1500]})
            elif v and "hex" in v:
                kind = "length" if len(v["hex"]) // 2 != t["count"] * e["width"] else "range"
                ctx.violation(f"range want=reported got=data kind={kind}", {"case": e, "got": v})
            ctx.sample({"case": e}, 3)
    return n


def run(ctx):
    ctx.build_driver()
    n = metadata(ctx)
    n += ranges(ctx)
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ["Repeated keys: the last one counts.", "Without a length the tensor takes as many bytes as its elements need."]
    return "model_checking", n

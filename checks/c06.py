"""C06: external data are never taken from outside the model's directory."""
import os, shutil
import onnxenc
from core import ToolError


def make_tree(root, lay):
    for d in sorted(lay["dirs"], key=len):
        os.makedirs(os.path.join(root, *d), exist_ok=True)
    for k, f in enumerate(sorted(lay["files"])):
        with open(os.path.join(root, *f), "wb") as fh:
            fh.write(bytes([k + 1] * 4))
    os.symlink("base", os.path.join(root, "blink"))
    for l in lay["links"]:
        t = "/".join(l["to"]["comps"])
        os.symlink(os.path.join(root, t) if l["to"]["abs"] else t, os.path.join(root, *l["at"]))


def text(root, loc):
    s = "/".join(loc["comps"])
    return {"rel": s, "abs": root + "/base/" + s, "nul": s + "\0", "nulmid": s[:1] + "\0" + s[1:]}[loc["kind"]]


def model(loc):
    return onnxenc.model({
        "nodes": [{"op": "Add", "in": ["x", "w"], "out": ["y"], "name": "a"}],
        "inputs": [{"name": "x", "dtype": "U8", "shape": [4]}],
        "outputs": [{"name": "y", "dtype": "U8", "shape": [4]}],
        "inits": [{"name": "w", "dtype": "U8", "shape": [4], "enc": "external", "external": [("location", loc), ("offset", "0"), ("length", "4")]}]})


def run(ctx):
    q = not ctx.thorough
    lay = ctx.tlc("ExternalPath", {"Links1": 17, "Links2": 4 if q else 7, "Links3": 3 if q else 7, "Depth": 2 if q else 3},
                  invariants=["Contained", "NoLinks"] if q else ["Contained"], timeout=3000)
    if lay.error:
        raise ToolError("the specification itself is wrong: " + lay.error)
    ctx.build_driver()
    # 1. the resolver, on every location of every layout
    reqs, meta, n = [], [], 0
    real = os.path.realpath(ctx.dir)
    for k, l in enumerate(lay):
        root = f"{real}/t{k}"
        make_tree(root, l)
        locs = sorted(l["locs"], key=lambda x: (x["loc"]["kind"], x["loc"]["comps"]))
        bases = [(root + "/base", None), (root + "/blink", None), ("base", root), (root + "/base/d/..", None), (".", root + "/base"), ("", root + "/base")]
        pick = bases if k % 8 == 0 else [bases[k % len(bases)], bases[0]]
        for b, cwd in pick:
            reqs.append({"cmd": "resolve", "base": b, "cwd": cwd, "locations": [text(root, x["loc"]) for x in locs]})
            meta.append((root, l, locs, b))
    for (root, l, locs, b), r in zip(meta, ctx.drive(reqs)):
        if "out" not in r:
            raise ToolError(f"driver: {r}")
        for x, got in zip(locs, r["out"]):
            want = x["expect"]
            n += 1
            ctx.count("resolve:" + want[0])
            exp = root + "/" + "/".join(want[1:]) if want[0] == "file" else want[0]
            inside = got == root + "/base" or got.startswith(root + "/base/")
            bad = None
            if want[0] == "err" and got not in ("err", "missing"):
                bad = "accepted a location that must be refused"
            elif want[0] == "err" and got == "missing":
                # refused later, when the file is opened; only links that lead nowhere may end so
                bad = "did not refuse" if x["loc"]["kind"] != "rel" or ".." in x["loc"]["comps"] else None
            elif want[0] == "file" and got != exp:
                bad = "refused or misread a location inside the directory"
            elif want[0] == "missing" and got not in ("missing", "err"):
                bad = "resolved a location that leads nowhere"
            if bad:
                lk = [p["to"] for p in l["links"]]
                ctx.violation(f"resolve base={'bare' if b == '' else 'path'} want={want[0]} got={'file' if got.startswith('/') else got[:40]}",
                              {"what": bad, "location": x["loc"], "base": b, "links": l["links"], "expected": exp, "got": got})
            ctx.sample({"location": x["loc"], "links": l["links"], "base": b.replace(root, ""), "expected": want})
    # 2. the same through an import: the tensor holds the file's bytes, or there is no tensor
    reqs, meta = [], []
    for k, l in enumerate(lay):
        root = f"{real}/t{k}"
        locs = sorted((x for x in l["locs"]), key=lambda x: (x["loc"]["kind"], x["loc"]["comps"]))
        # those that involve a link first, then a rotating sample
        hot = [x for x in locs if any(c in ("l", "l2", "m") for c in x["loc"]["comps"])]
        step = max(1, len(hot) // (12 if q else 40))
        some = hot[k % step::step] + locs[k % 37::max(37, len(locs) // 6)]
        files = sorted(l["files"])
        for j, x in enumerate(some):
            how = [(root + "/base/m%d.onnx" % j, None), ("m%d.onnx" % j, root + "/base"), ("./m%d.onnx" % j, root + "/base"),
                   ("base/m%d.onnx" % j, root), (root + "/blink/m%d.onnx" % j, None)][(j + k) % 5]
            with open(root + "/base/m%d.onnx" % j, "wb") as fh:
                fh.write(model(text(root, x["loc"])))
            reqs.append({"cmd": "ir", "path": how[0], "cwd": how[1], "entry": "file", "values": True, "simplify": j % 2 == 0})
            meta.append((root, l, x, how, files))
    for (root, l, x, how, files), r in zip(meta, ctx.drive(reqs)):
        n += 1
        vals = []
        if r["res"] == "ok":
            for nd in r["graph"]["nodes"]:
                for a in nd["inputs"]:
                    if "value" in a:
                        vals.append(a["value"].get("hex") if a["value"] else None)
        want = x["expect"]
        hexes = sorted({v for v in vals if v})
        ctx.count(f"import:{want[0]}:{r['res'] if not hexes else 'data'}")
        bad = None
        if want[0] == "file" and tuple(want[1:]) in [tuple(f) for f in files]:
            e = "%02x" % (files.index(want[1:]) + 1) * 4
            if hexes != [e]:
                bad = f"the tensor should hold {e}, the import gave {hexes} {r.get('msg', '')}"
        elif hexes:
            bad = f"no tensor data expected ({want[0]}), the import gave {hexes}"
        if bad:
            ctx.violation(f"import how={'bare' if '/' not in how[0] else 'path'} want={want[0]} got={'data' if hexes else 'none'}",
                          {"what": bad, "location": x["loc"], "model": how, "links": l["links"], "expected": want, "result": r})
    for k in range(len(lay)):
        shutil.rmtree(f"{real}/t{k}", ignore_errors=True)
    ctx.cov["exhaustive"] = True
    ctx.cov["layouts"] = len(lay)
    ctx.assumptions += ["The file system does not change while a model is imported.",
                        "POSIX path resolution as Linux implements it; a chain of up to 12 links."]
    return "model_checking", n

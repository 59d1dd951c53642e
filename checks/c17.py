"""C17: generation runs write the promised files, and touch nothing else."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import e2e, sessions
from core import NCPU, TARGET, ToolError

UNI = "modèle ü"


def contents(ctx):
    made = {x["tpl"]: x["case"] for x in sessions.tlc(ctx, "files-models", "", init="MadeInit", next_="Stop", invariants=["MadeEmit"])}
    layer = made["layer"]
    relu = json.loads(json.dumps(layer))
    x = relu["ins"][0]
    act = next(n for n in layer["nodes"] if n["op"] == "Relu")
    relu.update(inits=[], nodes=[dict(act, **{"in": [x["n"]], "out": ["y"]})], outs=[{"n": "y", "x": x["x"]}])
    late = json.loads(json.dumps(layer))
    # a valid model with a bound of Clip known at run time only, which the code generator refuses
    y = late["outs"][0]
    late["nodes"].append(dict(act, op="Clip", **{"in": [y["n"], "lowest"], "out": ["clipped"]}))
    late["ins"].append({"n": "lowest", "x": {"t": "F32", "s": [], "v": [{"k": "q", "n": 0, "d": 1}]}, "dyn": False})
    late["outs"] = [{"n": "clipped", "x": y["x"]}]
    return relu, layer, late


def run_history(ctx, k, hist, files):
    """Plays the history in a directory of its own; observations of each run."""
    w = f"{ctx.dir}/disk/{k:05d}"
    os.makedirs(w)
    seen = []

    def disk():
        d, loads = {}, {}
        for base, _, fs in os.walk(w):
            for f in fs:
                p = f"{base}/{f}"
                with open(p, "rb") as fh:
                    b = fh.read().replace(w.encode(), b"@W")
                r = os.path.normpath(os.path.relpath(p, w)).replace(UNI, "UNI")
                if r == "driver.answers":
                    continue
                d[r] = hashlib.sha256(b).hexdigest()
                if f.endswith(".rs"):
                    t = b.decode("utf8", "replace")
                    m = re.search(r'include_bytes!\(\s*"([^"]*)"', t)
                    at = base
                    if not m:
                        m, at = re.search(r'from_file\(\s*"([^"]*)"', t), w
                    if m:
                        loads[r] = os.path.normpath(os.path.relpath(os.path.join(at, m[1].replace("@W", w)), w)).replace(UNI, "UNI")
        return d, loads

    for e in hist:
        for i in e["ins"]:
            p = f"{w}/{i['dir']}/{i['name']['stem'].replace('UNI', UNI)}{i['name']['ext']}"
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if i["kind"] == "missing":
                if os.path.exists(p):
                    os.remove(p)
            else:
                with open(p, "wb") as fh:
                    fh.write(files[i["kind"]])
        if e["cfg"]["out"]["arg"] == "x/../up":
            os.makedirs(f"{w}/x", exist_ok=True)
        before, _ = disk()
        c = e["cfg"]
        req = {"cmd": "gen", "inputs": [f"{i['dir']}/{i['name']['stem'].replace('UNI', UNI)}{i['name']['ext']}" for i in e["ins"]],
               "out_dir": c["out"]["arg"].replace("ABS", w), "embed": c["embed"], "dev": c["dev"], "simplify": c["simp"]}
        if c["script"]:
            req["script"] = f"{w}/tgt"
        ans = f"{w}/driver.answers"
        r = subprocess.run([f"{TARGET}/debug/harness"], input=json.dumps(req).encode() + b"\n", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=w,
                           env=dict(os.environ, HARNESS_OUT=ans), timeout=120)
        got = None
        if os.path.exists(ans):
            with open(ans) as fh:
                t = fh.read()
            got = json.loads(t) if t.strip() else None
            os.remove(ans)
        after, loads = disk()
        seen.append({"fail": got is None or got["res"] != "ok", "before": before, "after": after, "loads": loads, "msg": (got or {}).get("msg", "")[:200]})
    shutil.rmtree(w)
    return seen


def run(ctx):
    ctx.build_driver()
    relu, layer, late = contents(ctx)
    files = {"relu": e2e.encode(relu), "layer": e2e.encode(layer), "late": e2e.encode(late), "truncated": e2e.encode(layer)[:-7]}
    full = "TRUE" if ctx.thorough else "FALSE"
    const = {"Full": full, "File": '""', "Inputs": 3}

    def hists(tag, length, **kw):
        r = ctx.tlc("Files", {**const, "Length": length}, invariants=["Emit"], tag=tag, **kw)
        if r.error:
            raise ToolError(f"{tag}: {r.error}")
        return [x["hist"] for x in r]
    todo = hists("files-one", 1)
    todo += hists("files-long", 4, simulate=4000 if ctx.thorough else 500, depth=5, workers=1)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        seen = list(ex.map(lambda k: run_history(ctx, k, todo[k], files), range(len(todo))))
    numbers = {}
    found = []
    for h, s in zip(todo, seen):
        for r in s:
            for k in ("before", "after"):
                r[k] = {p: numbers.setdefault(v, len(numbers) + 1) for p, v in r[k].items()}
        # an empty record is written with a file that is no file
        found.append({"hist": h, "runs": [{"fail": r["fail"], "before": {**r["before"], "-": 0}, "after": {**r["after"], "-": 0}, "loads": {**r["loads"], "-": "-"}} for r in s]})
    p = f"{ctx.dir}/found.json"
    with open(p, "w") as fh:
        json.dump(found, fh)
    r = ctx.tlc("Files", {**const, "Length": 1, "File": f'"{p}"'}, init="JInit", next_="JNext", invariants=["JEmit"], tag="files-judge")
    if r.error:
        raise ToolError(f"judge: {r.error}")
    said = {x["h"]: x["say"] for x in r if "h" in x}
    info = next(x for x in r if "keys" in x)
    if len(said) != len(found):
        raise ToolError("not all histories judged")
    if info["mixed"]:
        ctx.violation("different files have the same content", info)
    n = 0
    for k, h in enumerate(todo):
        for j, (e, say) in enumerate(zip(h, said[k + 1])):
            n += 1
            ctx.count("failed" if seen[k][j]["fail"] else f"wrote {len(e['ins'])}")
            if seen[k][j]["fail"] and any(i["kind"] == "late" for i in e["ins"]):
                ctx.count("failed late")
            for x in sorted(say):
                c = e["cfg"]
                names = ",".join(f"{i['dir']}/{i['name']['stem']}{i['name']['ext']}:{i['kind']}" for i in e["ins"])
                opts = " ".join(q for q in ("dev", "embed", "simp", "script") if c[q])
                ctx.violation(f"{x}: {names if len(h) == 1 else 'history'} to {c['out']['arg']} [{opts}]", {"history": h[:j + 1], "seen": seen[k][:j + 1], "problem": x})
    ctx.sample({"history": todo[-1], "files": sorted(seen[-1][-1]["after"])})
    ctx.cov["histories"] = len(todo)
    ctx.cov["kinds of file"] = info["keys"]
    return "model_checking", n

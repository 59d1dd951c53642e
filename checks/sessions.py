"""Sessions of Session.tla put through the code: what an event gives depends on nothing but its model and options."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import e2e
import onnxenc as ox
from core import NCPU, TARGET, ToolError

CONST = {"Family": '"if"', "AllModes": "FALSE"}


def tlc(ctx, tag, file, length=1, kinds=(), **kw):
    r = ctx.tlc("Session", {**CONST, "File": f'"{file}"', "Kinds": "{%s}" % ", ".join(f'"{k}"' for k in kinds), "Length": length}, tag=tag, **kw)
    if r.error:
        raise ToolError(f"Session {tag}: {r.error}")
    return list(r)


def external(case, blob):
    """The model with its initializers in a file of its own."""
    off, data = 0, b""
    c = json.loads(json.dumps(case))
    b = e2e.encode(dict(c, inits=[]))
    # the graph is one field of the model; fields of a message that occur twice are merged
    g = b""
    for i in case["inits"]:
        t = e2e.tens(i["x"], i["n"])
        raw = ox.raw(t["dtype"], t["data"])
        g += ox.ld(5, ox.tensor(i["n"], t["dtype"], t["shape"], enc="external", external=[("location", os.path.basename(blob)), ("offset", str(len(data))), ("length", str(len(raw)))]))
        data += raw
    with open(blob, "wb") as fh:
        fh.write(data)
    return b + ox.ld(7, g)


def models(ctx, d):
    """Writes the models of Session.tla; {name: path}."""
    made = {x["tpl"]: x["case"] for x in tlc(ctx, "session-models", "", init="MadeInit", next_="Stop", invariants=["MadeEmit"])}
    files = {n: e2e.encode(c) for n, c in made.items()}
    files["outside"] = external(made["layer"], f"{d}/outside.bin")
    files["long"] = ox.ld(6, b"l" * 5_000_000) + files["layer"]  # its documentation comes first
    files["truncated"] = files["layer"][:-7]
    c = made["layer"]
    files["unsorted"] = e2e.encode(dict(c, nodes=c["nodes"][::-1]))
    files["unknown"] = e2e.encode(dict(c, nodes=[dict(n, op="Frobnicate" if n["op"] == "Relu" else n["op"]) for n in c["nodes"]]))
    for n, b in files.items():
        with open(f"{d}/{n}.onnx", "wb") as fh:
            fh.write(b)
    return made


def request(d, e):
    n = e["m"] + ".onnx"
    up = os.path.basename(d)
    path, cwd = {"abs": (f"{d}/{n}", None), "rel": (f"{up}/{n}", os.path.dirname(d)), "bare": (n, d), "dot": (f"./{n}", d), "updown": (f"../{up}/../{up}/{n}", d),
                 "slashes": (f"{up}//.///{n}", os.path.dirname(d)), "link": (f"{d}-link/{n}", None)}.get(e["way"], (f"{d}/{n}", None))
    if e["do"] == "gen":
        return {"cmd": "gen", "inputs": [path], "out_dir": "out", "simplify": e["simp"], "embed": e["embed"]}
    return dict({"cmd": "ir", "path": path, "simplify": e["simp"], "values": True}, entry=e["way"] if e["way"] in ("bytes", "reader", "slow") else "file", **({"cwd": cwd} if cwd else {}))


def play(ctx, reqs, work):
    """One process, one request after the other; the answers, with the files generated."""
    os.makedirs(f"{work}/out", exist_ok=True)
    p = subprocess.Popen([f"{TARGET}/debug/harness"], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work,
                         env=dict(os.environ, HARNESS_OUT=f"{work}/answers"))
    out = []

    def lines():
        try:
            with open(f"{work}/answers") as fh:
                return fh.read().split("\n")[:-1]
        except FileNotFoundError:
            return []
    import time
    for k, r in enumerate(reqs):
        try:
            p.stdin.write((json.dumps(r) + "\n").encode())
            p.stdin.flush()
        except BrokenPipeError:
            break
        t = time.time()
        while len(lines()) <= k and p.poll() is None and time.time() - t < 60:
            time.sleep(0.002)
        got = lines()
        if len(got) <= k:
            break
        a = json.loads(got[k])
        if r["cmd"] == "gen" and a["res"] == "ok":
            stem = os.path.basename(r["inputs"][0])[:-5]
            a["files"] = {}
            for x in ("rs", "bpk"):
                f = f"{work}/out/{stem}.{x}"
                if os.path.exists(f):
                    with open(f, "rb") as fh:
                        # code with embedded weights names the directory
                        a["files"][x] = fh.read().replace(work.encode(), b"@W").decode("latin-1")
                    os.remove(f)
        out.append(a)
    p.stdin.close()
    try:
        p.wait(20)
    except subprocess.TimeoutExpired:
        p.kill()
    return out + [{"res": "abort"}] * (len(reqs) - len(out))


class Results:
    """Numbers for results: equal results have equal numbers."""
    def __init__(self):
        self.at, self.what = {}, [None]

    def number(self, a):
        if a["res"] == "abort":
            return -1
        if a["res"] != "ok":
            return 0
        s = json.dumps([a.get("graph"), a.get("files")], sort_keys=True)
        h = hashlib.sha256(s.encode()).hexdigest()
        if h not in self.at:
            self.at[h] = len(self.what)
            self.what.append(s)
        return self.at[h]


def check(ctx, kinds):
    """Histories of the given kinds of event; returns the number of events validated."""
    d = f"{ctx.dir}/models"
    os.makedirs(d)
    os.symlink(d, d + "-link")
    models(ctx, d)
    hists = [x["hist"] for x in tlc(ctx, "session-one", "", 1, kinds, init="SInit", next_="SNext", invariants=["SEmit"])]
    hists += [x["hist"] for x in tlc(ctx, "session-long", "", 7, kinds, init="SInit", next_="SNext", invariants=["SEmit"], simulate=1600 if ctx.thorough else 160, depth=8, workers=1)]
    res = Results()

    def one(k):
        w = f"{ctx.dir}/session/{k:06d}"
        a = play(ctx, [request(d, e) for e in hists[k]], w)
        shutil.rmtree(w)
        return a
    with cf.ThreadPoolExecutor(NCPU) as ex:
        answers = list(ex.map(one, range(len(hists))))
    found = [{"hist": h, "seen": [res.number(x) for x in a]} for h, a in zip(hists, answers)]
    p = f"{ctx.dir}/seen.json"
    with open(p, "w") as fh:
        json.dump(found, fh)
    said = {x["id"]: x["say"] for x in tlc(ctx, "session-judge", p, 1, kinds, init="SJInit", next_="SJNext", invariants=["SJEmit"])}
    if len(said) != len(found):
        raise ToolError("not all histories judged")
    n = 0
    for k, f in enumerate(found):
        for e, s, a, say in zip(f["hist"], f["seen"], answers[k], said[k + 1]):
            n += 1
            ctx.count(f"{e['do']}:{say}")
            if say != "ok":
                ctx.violation(f"{e['do']} of {e['m']} {say}: by {e['way']}, simplify {e['simp']}{', embedded' if e['embed'] else ''}{'' if len(f['hist']) == 1 else ', after other events'}",
                              {"history": f["hist"], "seen": f["seen"], "answer": {q: str(v)[:4000] for q, v in a.items()}})
    ctx.sample({"history": hists[-1], "results": found[-1]["seen"]})
    ctx.cov["histories"] = len(hists)
    ctx.cov["different results"] = len(res.what) - 1
    return n

"""C21: the model-check runner does every step and reports every failure."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from core import NCPU, TARGET, ToolError

IDS = ["silero-vad", "all-minilm-l6-v2", "clip-vit-b-32-text", "clip-vit-b-32-vision", "modernbert-base", "rf-detr", "depth-anything-v2", "albert", "yolo",
       "mediapipe-face-detector", "smollm", "smollm2", "qwen-1.5", "qwen-2.5", "qwen-3"]
UNKNOWN = ["qwen", "Yolo", "nope", "", "yolo ", "smollm3", "clip-vit-b-32"]
DIRS = {i: i for i in IDS} | {"smollm2": "smollm", "qwen-1.5": "qwen", "qwen-2.5": "qwen", "qwen-3": "qwen"}


def tla(xs):
    return "{" + ", ".join(json.dumps(x) for x in xs) + "}"


def parse(rec, root):
    """The settings of a started process, whatever the order and spelling of its options."""
    a = list(rec["args"])
    o = {"tool": rec["tool"], "dir": None, "verb": None, "args": [], "features": "", "release": False, "env": rec["env"], "odd": []}
    base = f"{root}/crates/model-checks/"
    o["dir"] = rec["cwd"][len(base):] if rec["cwd"].startswith(base) else rec["cwd"]
    if o["tool"] == "uv":
        if a[:1] != ["run"] or len(a) < 2:
            o["odd"] = a
        else:
            o["verb"], o["args"] = os.path.basename(a[1]), a[2:]
        return o
    o["verb"] = a[0] if a else None
    nodef, k = False, 1
    while k < len(a):
        x = a[k]
        if x == "--no-default-features":
            nodef = True
        elif x in ("--features", "-F") and k + 1 < len(a):
            o["features"] = a[k + 1]
            k += 1
        elif x.startswith("--features="):
            o["features"] = x[11:]
        elif x in ("--release", "-r", "--profile=release"):
            o["release"] = True
        else:
            o["odd"].append(x)
        k += 1
    if not nodef:
        o["odd"].append("default features are on")
    return o


def run(ctx):
    ctx.build_driver("xt")
    root = f"{ctx.dir}/ws"
    os.makedirs(f"{ctx.dir}/bin")
    for t in ("uv", "cargo"):
        os.symlink(f"{TARGET}/debug/recorder", f"{ctx.dir}/bin/{t}")
    os.makedirs(f"{ctx.dir}/tmp")
    for d in set(DIRS.values()):
        os.makedirs(f"{root}/crates/model-checks/{d}")
    kinds = ["1", "101", "kill"] if ctx.thorough else ["1", "kill"]
    inv = ["Emit", "Succeeds", "NothingUnknown", "Complete", "FailFast", "OncePerModel", "BlockedOnlyByName"]
    a = ctx.tlc("Runner", {"Selections": tla(IDS + UNKNOWN), "FeatureArgs": tla(["*", "tch,wgpu", "", "a b"] if ctx.thorough else ["*", "tch,wgpu"]), "MaxFail": 1, "Kinds": tla(kinds)},
                invariants=inv, tag="one")
    b = ctx.tlc("Runner", {"Selections": tla(["*"]), "FeatureArgs": tla(["*", "tch,wgpu"]), "MaxFail": 3 if ctx.thorough else 2, "Kinds": tla(["1"])}, invariants=inv, tag="all")
    for em in (a, b):
        if em.error:
            raise ToolError("the specification itself is wrong: " + em.error)
    cases = list(a) + list(b)
    env0 = {"PATH": f"{ctx.dir}/bin:{os.environ['PATH']}", "HOME": ctx.dir, "TMPDIR": f"{ctx.dir}/tmp", "RUST_BACKTRACE": "0"}

    def one(k, e, missing=None):
        c = e["cfg"]
        log = f"{ctx.dir}/log{k}"
        cmd = [f"{TARGET}/debug/xtask", "model-check"]
        if c["sel"] != "*":
            cmd += [f"--model={c['sel']}"]
        if c["features"] != "*":
            cmd += [f"--features={c['features']}"]
        cmd += ["--debug"] * c["debug"] + ["--fail-fast"] * c["failfast"] + ([c["step"]] if c["step"] != "none" else [])
        env = dict(env0, RECORDER_LOG=log, RECORDER_PLAN=",".join(e["outcomes"]), **(missing or {}))
        try:
            r = subprocess.run(cmd, cwd=root, env=env, capture_output=True, text=True, timeout=120, errors="replace")
        except subprocess.TimeoutExpired:
            return cmd[1:], None, []
        recs = [json.loads(l) for l in open(log)] if os.path.exists(log) else []
        if os.path.exists(log):
            os.remove(log)
        return cmd[1:], r, recs

    def judge(k, e):
        cmd, r, recs = one(k, e)
        got = [parse(x, root) for x in recs]
        want = [{"tool": p["tool"], "dir": p["dir"], "verb": p["verb"], "args": p["args"], "features": p["features"], "release": p["release"],
                 "env": {p["var"]: p["val"]} if p["var"] else {}, "odd": []} for p in e["started"]]
        key = " ".join(cmd) + " plan " + ",".join(e["outcomes"])
        if got != want:
            ctx.violation("steps: " + key, {"command": cmd, "outcomes of the steps": e["outcomes"], "expected": want, "got": got, "stderr": r and r.stderr[-1500:]})
        elif r is None or (r.returncode == 0) != (e["result"] == "ok"):
            ctx.violation("status: " + key, {"command": cmd, "outcomes of the steps": e["outcomes"], "expected": e["result"], "got": r and r.returncode, "stderr": r and r.stderr[-1500:]})
        ctx.count(("all " if e["cfg"]["sel"] == "*" else "one ") + e["cfg"]["step"] + (" fails" if e["failed"] else ""))

    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda x: judge(*x), enumerate(cases)))
    ctx.sample(cases[-1])
    n = len(cases)
    # Steps that cannot be started at all fail like any other: the tool is not installed.
    base = next(e for e in b if not e["failed"] and e["cfg"]["step"] == "none" and not e["cfg"]["debug"] and not e["cfg"]["failfast"] and e["cfg"]["features"] == "*")
    for tool in ("uv", "cargo"):
        for ff in (False, True):
            n += 1
            os.makedirs(f"{ctx.dir}/only-{tool}", exist_ok=True)
            if not os.path.lexists(f"{ctx.dir}/only-{tool}/{tool}"):
                os.symlink(f"{TARGET}/debug/recorder", f"{ctx.dir}/only-{tool}/{tool}")
            e = dict(base, cfg=dict(base["cfg"], failfast=ff))
            cmd, r, recs = one(f"m{tool}{ff}", e, {"PATH": f"{ctx.dir}/only-{tool}"})
            want = ([] if tool == "cargo" else ["uv"] * (1 if ff else 12))
            if r is None or [x["tool"] for x in recs] != want or r.returncode == 0:
                ctx.violation(f"only {tool} installed, fail-fast {ff}", {"command": cmd, "started": recs, "expected": want, "status": r and r.returncode})
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ["uv and cargo are stand-ins that record how they are started and end as planned.",
                        f"Runs of all models: at most {3 if ctx.thorough else 2} failing steps with default settings, one with others."]
    return "model_checking", n

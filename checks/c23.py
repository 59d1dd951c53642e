"""C23: model-check stages agree on where artifacts are."""
import glob, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import PurePosixPath
from core import NCPU, REPO, TARGET, VERIF, ToolError, sh_env

MC = f"{REPO}/crates/model-checks"
ODD = ["a", "A", "Silero-VAD", "model v2.1", "ünï", "x.y", "a-b_c", "model-checks", "burn-onnx"]

# The download stage, with everything that is not installed replaced, and nothing created.
PY = r'''
import sys, os, types, json, importlib.abc, importlib.machinery
from unittest.mock import MagicMock
from pathlib import Path
class Any(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        if name.split(".")[0] in ("common",) or name.split(".")[0] in sys.stdlib_module_names: return None
        return importlib.machinery.ModuleSpec(name, self, is_package=True)
    def create_module(self, spec):
        m = MagicMock(name=spec.name); m.__path__ = []; m.__spec__ = spec; m.__name__ = spec.name; return m
    def exec_module(self, m): pass
sys.meta_path.append(Any())
Path.mkdir = lambda self, *a, **k: None
asked = []
'''
PY_DIR = PY + r'''
sys.path.insert(0, sys.argv[1])
sys.stdout = open(os.devnull, "w", errors="surrogateescape")
import common
out = {m: os.fsencode(str(common.get_artifacts_dir(m))).hex() for m in json.loads(sys.argv[2])}
sys.__stdout__.write(json.dumps(out))
'''
PY_GET = PY + r'''
import runpy
def exists(self, *a, **k):
    asked.append(os.fsencode(str(self)).hex()); return True
Path.exists = exists
os.path.exists = lambda p: exists(Path(p))
def no(*a, **k): raise SystemExit("stopped")
Path.open = Path.write_text = Path.write_bytes = Path.unlink = no
import builtins, shutil, urllib.request, subprocess as sp
real = builtins.open
builtins.open = lambda f, mode="r", *a, **k: real(f, mode, *a, **k) if not set(mode) & set("wax+") else no()
shutil.copy = shutil.move = shutil.rmtree = os.remove = os.rename = os.makedirs = os.unlink = no
urllib.request.urlretrieve = urllib.request.urlopen = sp.run = sp.Popen = no
script = sys.argv[1]
sys.argv = [script] + json.loads(sys.argv[2])
sys.path.insert(0, os.path.dirname(script))
sys.stdout = real(os.devnull, "w", errors="surrogateescape")
why = ""
try:
    runpy.run_path(script, run_name="__main__")
except BaseException as e:
    why = repr(e)
sys.__stdout__.write(json.dumps({"asked": asked, "why": why}))
'''


def concrete(part, scratch):
    k, _, v = part.partition(":")
    if k not in ("BURN", "XDG", "HOME"):
        return os.fsencode(part)
    return {"unset": None, "empty": b"", "abs": scratch + b"/" + k.lower().encode(), "other": scratch + b"/other", "spaces": scratch + b"/with space/\xc3\xbc",
            "bytes": scratch + b"/\xff\xfe", "rel": b"cache/" + k.lower().encode(), "trail": scratch + b"/t//", "dots": scratch + b"/a/../b",
            "root": b"/nonexistent-" + k.lower().encode()}[v]


def env_of(e, scratch):
    env = {b"PATH": os.environb[b"PATH"], b"LANG": b"C.UTF-8", b"PYTHONDONTWRITEBYTECODE": b"1"}
    for k, v in ((b"BURN_CACHE_DIR", "BURN:" + e["burn"]), (b"XDG_CACHE_HOME", "XDG:" + e["xdg"]), (b"HOME", "HOME:" + e["home"])):
        x = concrete(v, scratch)
        if x is not None:
            env[k] = x
    return env


def norm(b):
    return str(PurePosixPath(os.fsdecode(b)))


def run(ctx):
    ctx.build_driver()
    models = sorted(d for d in os.listdir(MC) if os.path.exists(f"{MC}/{d}/build.rs"))
    names = models + ODD
    em = ctx.tlc("ArtifactsDir", {"Models": "{" + ", ".join(f'"{m}"' if m.isascii() else '"@u"' for m in names) + "}"}, invariants=["Distinct", "OneLevel"])
    if em.error:
        raise ToolError("the specification itself is wrong: " + em.error)
    scratch = os.fsencode(ctx.dir)
    n = 0

    def one(e):
        env = env_of(e, scratch)
        r = subprocess.run([f"{TARGET}/debug/harness", "art"] + names, env=env, cwd=ctx.dir, capture_output=True)
        p = subprocess.run([sys.executable, "-B", "-c", PY_DIR, MC, json.dumps(names)], env=env, cwd=ctx.dir, capture_output=True)
        return e, r, p

    with ThreadPoolExecutor(NCPU) as ex:
        for e, r, p in ex.map(one, em):
            if p.returncode:
                raise ToolError("common.py cannot be run: " + p.stderr.decode()[-1500:])
            if r.returncode:
                ctx.violation(f"burn={e['burn']} xdg={e['xdg']} home={e['home']} fails", {"case": e, "stderr": r.stderr.decode(errors='replace')[-800:]})
                continue
            rust = {}
            for line in r.stdout.split(b"\n"):
                if line.startswith(b"{"):
                    o = json.loads(line)
                    rust[o["name"]] = o
            py = json.loads(p.stdout)
            for m in names:
                n += 1
                parts = [concrete(x, scratch) if x != "@u" else "ünï".encode() for x in e["dirs"][m if m.isascii() else "@u"]]
                want = norm(b"/".join(parts))
                got = {"run": norm(bytes.fromhex(rust[m]["run"])), "build": norm(bytes.fromhex(rust[m]["build"])), "download": norm(bytes.fromhex(py[m]))}
                ctx.count(f"burn={e['burn']}")
                for stage, g in got.items():
                    if g != want:
                        ctx.violation(f"{stage} burn={e['burn']} xdg={e['xdg']} home={e['home']} {m}", {"environment": {k.decode(): v.decode(errors="replace") for k, v in env_of(e, scratch).items()},
                                                                                                      "expected": want, "got": got})
            ctx.sample({"environment": {k: e[k] for k in ("burn", "xdg", "home")}, "dirs": got})
    n += stages(ctx, models)
    ctx.cov["exhaustive"] = True
    ctx.assumptions += ["Linux; HOME is set and not empty."]
    return "model_checking", n


def stages(ctx, models):
    """Each model's build script, compiled against the real directory function and a recording generator, takes its model from
    a file of the directory that is among those the download stage provides there; no two models use one directory."""
    d = ctx.dir
    with open(f"{d}/burn_onnx.rs", "w") as fh:
        fh.write('''pub struct ModelGen; impl Default for ModelGen { fn default() -> Self { Self } }
impl ModelGen { pub fn new() -> Self { Self } pub fn input(&mut self, s: &str) -> &mut Self { println!("@@input {s}"); self }
 pub fn out_dir(&mut self, s: &str) -> &mut Self { println!("@@out {s}"); self } pub fn run_from_script(&self) { println!("@@run") }
 pub fn development(&mut self, _: bool) -> &mut Self { self } pub fn embed_states(&mut self, _: bool) -> &mut Self { self } pub fn simplify(&mut self, _: bool) -> &mut Self { self } }''')
    subprocess.run(["rustc", "--edition", "2024", "--crate-type", "rlib", "--crate-name", "burn_onnx", f"{d}/burn_onnx.rs", "-o", f"{d}/libburn_onnx.rlib"], check=True, capture_output=True)
    lib = max(glob.glob(f"{TARGET}/debug/deps/libmodel_checks_common-*.rlib"), key=os.path.getmtime)
    # the variants each model has: those the runner starts
    variants = {"albert": [("ALBERT_MODEL", "albert-base-v2", [])], "yolo": [("YOLO_MODEL", "yolov8n", [])],
                "smollm": [("SMOLLM_MODEL", v, ["--model", v]) for v in ("smollm-135m", "smollm2-135m")],
                "qwen": [("QWEN_MODEL", v, ["--model", v]) for v in ("qwen1.5-0.5b", "qwen2.5-0.5b", "qwen3-0.6b")]}
    n = 0

    def one(m):
        r = subprocess.run(["rustc", "--edition", "2024", f"{MC}/{m}/build.rs", "-o", f"{d}/build-{m}", "--extern", f"burn_onnx={d}/libburn_onnx.rlib",
                            "--extern", f"model_checks_common={lib}", "-L", f"dependency={TARGET}/debug/deps", "-A", "warnings"], capture_output=True, text=True)
        if r.returncode:
            return m, None, r.stderr
        res = []
        for var in variants.get(m, [None]):
            cache = f"{d}/cache-{m}"
            os.makedirs(f"{d}/out-{m}", exist_ok=True)
            env = {"PATH": os.environ["PATH"], "HOME": d, "BURN_CACHE_DIR": cache, "OUT_DIR": f"{d}/out-{m}"}
            if var:
                env[var[0]] = var[1]
            r = subprocess.run([f"{d}/build-{m}"], env=env, capture_output=True, text=True, cwd=d)
            need = re.findall(r"rerun-if-changed=(/.*)", r.stdout)
            for f in need:
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, "w").close()
            r = subprocess.run([f"{d}/build-{m}"], env=env, capture_output=True, text=True, cwd=d)
            p = subprocess.run([sys.executable, "-B", "-c", PY_GET, f"{MC}/{m}/get_model.py", json.dumps(var[2] if var else [])],
                               env={k: v for k, v in env.items() if not var or k != var[0]}, capture_output=True, text=True, cwd=d)
            res.append((var, cache, r, p))
        return m, res, ""

    dirs = {}
    with ThreadPoolExecutor(NCPU) as ex:
        for m, res, err in ex.map(one, models):
            if res is None:
                raise ToolError(f"build.rs of {m} does not compile against the stand-ins: {err[-1500:]}")
            for var, cache, r, p in res:
                n += 1
                got = re.findall(r"@@input (.*)", r.stdout)
                if p.returncode:
                    raise ToolError(f"get_model.py of {m} cannot be run: {p.stderr[-1500:]}")
                o = json.loads(p.stdout)
                asked = {norm(bytes.fromhex(x)) for x in o["asked"]}
                ctx.count("stages")
                key = f"stages {m} {var[1] if var else ''}"
                detail = {"model": m, "variant": var, "build takes": got, "download provides": sorted(asked), "download ended": o["why"], "stdout": r.stdout[-800:], "stderr": r.stderr[-800:]}
                if len(got) != 1 or not got[0].startswith(cache + "/model-checks/"):
                    ctx.violation(key + " build takes its model from elsewhere", detail)
                elif not any(a.startswith(cache) for a in asked):
                    raise ToolError(f"get_model.py of {m} did not reach its files: {detail}")
                elif got[0] not in asked:
                    ctx.violation(key + " download provides another file", detail)
                else:
                    dirs.setdefault(os.path.dirname(got[0])[len(cache):], set()).add(m)
    for k, ms in dirs.items():
        if len(ms) > 1:
            ctx.violation(f"directory {k} shared", {"directory": k, "models": sorted(ms)})
    return n

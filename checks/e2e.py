"""From a model of the specification to the values the generated code returns: encode the model, generate
code with the real crate, compile it against the stand-in burn, run it, compare with the specification."""
import concurrent.futures as cf
import json, math, os, re, subprocess, threading
from fractions import Fraction
import onnxenc
from core import NCPU, TARGET, ToolError

I64MAX, I64MIN = (1 << 63) - 1, -(1 << 63)
DT_SIZE = {"I8": 8, "U8": 8, "I16": 16, "U16": 16, "I32": 32, "U32": 32, "I64": 64, "U64": 64}


# --- terms of the specification
def _lit(s):
    return float(s)


def _div(a, b):
    if b == 0 or math.isnan(a) or math.isnan(b):
        return math.nan if a == 0 or math.isnan(a) or math.isnan(b) else math.copysign(math.inf, a) * math.copysign(1, b)
    return a / b


def _exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def _log(x):
    return math.nan if math.isnan(x) or x < 0 else -math.inf if x == 0 else math.log(x)


def _pow(a, b):
    try:
        r = math.pow(a, b)
        return r
    except (ValueError, OverflowError):
        return math.nan


def _round(x):
    return float(round(x)) if math.isfinite(x) else x


def _sig(x):
    return 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x))


FN = {"add": lambda a, b: a + b, "mul": lambda a, b: a * b, "div": _div, "neg": lambda a: -a, "max": max, "min": min, "abs": abs,
      "sign": lambda a: math.copysign(1, a) if a else 0.0, "floor": math.floor, "ceil": math.ceil, "round": _round, "trunc": math.trunc,
      "exp": _exp, "sqrt": lambda a: math.sqrt(a) if a >= 0 else math.nan, "log": _log, "pow": _pow, "sigmoid": _sig, "tanh": math.tanh,
      "pi": lambda: math.pi, "Sin": math.sin, "Cos": math.cos, "Tan": math.tan, "Asin": math.asin, "Acos": math.acos, "Atan": math.atan,
      "Sinh": math.sinh, "Cosh": math.cosh, "Asinh": math.asinh, "Acosh": math.acosh, "Atanh": math.atanh, "Erf": math.erf}


def ev(e):
    """Value of an element: int, Fraction-free float."""
    if e["k"] == "q":
        return e["n"] if e["d"] == 1 else e["n"] / e["d"]
    f, a = e["f"], e["a"]
    if f == "lit":
        return _lit(a[0])
    if f == "ifpos":
        return ev(a[1]) if ev(a[0]) > 0 else ev(a[2])
    if f == "ifneg":
        return ev(a[1]) if ev(a[0]) < 0 else ev(a[2])
    return FN[f](*[ev(x) for x in a])


def values(x):
    """Elements of a tensor of the specification, as numbers of its element type."""
    fl = x["t"] in ("F32", "F64", "F16", "BF16")
    out = []
    for e in x["v"]:
        v = ev(e)
        if fl:
            out.append(float(v))
        else:
            v = int(v)
            out.append(I64MAX if v == 2147483647 and x["t"] == "I64" else I64MIN if v == -2147483647 and x["t"] == "I64" else v)
    return out


def tens(x, name=""):
    return {"name": name, "dtype": x["t"], "shape": x["s"], "data": values(x)}


def attrs(at):
    if not at:
        return []
    out = []
    for n, a in sorted(at.items()):
        ty, v = a["ty"], a["v"]
        if ty == "f":
            v = float(ev(v))
        elif ty == "floats":
            v = [float(ev(x)) for x in v]
        elif ty == "t":
            v = tens(v)
        elif ty == "g":
            v = subgraph(v)
        elif ty in ("ints", "strings") and v == {}:
            v = []
        out.append({"name": n, "type": ty, "v": v})
    return out


def nodes(ns):
    return [{"op": n["op"], "in": list(n["in"]), "out": list(n["out"]), "name": n.get("name", ""), "domain": n.get("dom", ""), "attrs": attrs(n["at"])} for n in ns]


def info(n, x, dyn=False):
    if x is None:
        return {"name": n, "dtype": "F32", "shape": None, "typed": False}
    return {"name": n, "dtype": x["t"], "shape": [f"d_{n}_{k}" for k in range(len(x["s"]))] if dyn else x["s"]}


def subgraph(g):
    ty = g.get("types") or {}
    return {"nodes": nodes(g["nodes"]), "inits": [tens(i["x"], i["n"]) for i in g.get("inits", [])],
            "inputs": [info(n, ty.get(n) if ty else None) for n in g.get("ins", [])],
            "outputs": [info(n, ty.get(n) if ty else None) for n in g["outs"]], "name": g.get("name", "body")}


def encode(c):
    dyn = any(i.get("dyn") for i in c["ins"])
    inits = {i["n"]: i["x"] for i in c["inits"]}
    # initializers listed among the inputs, by the number of inputs before them
    listed = c.get("listed", [])
    ins = []
    for k in range(len(c["ins"]) + 1):
        if k:
            i = c["ins"][k - 1]
            ins.append(info(i["n"], i["x"], i.get("dyn")))
        ins += [info(q["n"], inits[q["n"]]) for q in listed if q["after"] == k]
    # the format of old has every initializer among the inputs
    old = bool(inits) and {q["n"] for q in listed} == set(inits)
    return onnxenc.model({
        "nodes": nodes(c["nodes"]), "inits": [tens(i["x"], i["n"]) for i in c["inits"]], "inputs": ins,
        "outputs": [info(o["n"], o["x"], dyn or o.get("dyn")) for o in c["outs"]], "opset": c["opset"], "ir_version": 3 if old else 9})


def feed(c):
    w = []
    for i in c["ins"]:
        x = i["x"]
        w += [x["t"], str(len(x["s"]))] + [str(d) for d in x["s"]]
        w += [repr(v) if isinstance(v, float) else str(v) for v in values(x)]
    return " ".join(w)


# --- comparison
def close(a, b, rtol=2e-4, atol=1e-4):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


KIND = lambda t: "float" if t in ("F32", "F64", "F16", "BF16") else "bool" if t == "Bool" else "int"


def compare(want, got):
    """'' or what differs; want: [(name, tensor of the specification)], got: dumped results."""
    if len(want) != len(got):
        return f"{len(got)} results instead of {len(want)}"
    for o, g in zip(want, got):
        x = o["x"]
        d = differs(x, g)
        if d:
            return f"output {o['n']}: {d}"
    return ""


def joined(want, got):
    """Whether results only differ in that those of rounds are joined in the first dimension instead of stacked in a new one."""
    if len(want) != len(got):
        return False
    for o, g in zip(want, got):
        x = o["x"]
        if differs(x, g):
            s = x["s"]
            flat = [s[0], 1] if len(s) == 1 else [s[0] * s[1]] + s[2:] if len(s) > 1 else None
            if flat != g["s"] or differs({**x, "s": flat}, g):
                return False
    return True


def differs(x, g):
    if KIND(x["t"]) != KIND(g["t"]):
        return f"element type {g['t']} instead of {x['t']}"
    if x["t"] != g["t"]:
        return f"element type {g['t']} instead of {x['t']}"
    if x["s"] != g["s"] and not (x["s"] == [] and g["s"] == [1] and g["form"] != "scalar") and not (x["s"] == [1] and g["form"] == "scalar" and False):
        return f"shape {g['s']} instead of {x['s']}"
    w = values(x)
    gv = [float(v) if isinstance(v, str) else v for v in g["v"]]
    if KIND(x["t"]) == "float":
        # an accumulation in lower precision has errors relative to its largest term
        big = max([abs(v) for v in w if math.isfinite(v)], default=0)
        tol = {"F16": 1e-2, "BF16": 5e-2}.get(x["t"], 2e-4)
        bad = [k for k, (a, b) in enumerate(zip(w, gv)) if not close(a, b, tol, tol / 2 + 1e-5 * big)]
    else:
        bad = [k for k, (a, b) in enumerate(zip(w, gv)) if a != b]
    if bad or len(w) != len(gv):
        k = bad[0] if bad else 0
        return f"element {k}: {gv[k:k+1]} instead of {w[k:k+1]} ({len(bad)} of {len(w)} differ); got {gv[:12]} want {w[:12]}"
    return ""


# --- pipeline
class Pipeline:
    def __init__(self, ctx, tag="e2e"):
        self.ctx, self.dir = ctx, f"{ctx.dir}/{tag}"
        os.makedirs(self.dir)
        self.src = {}      # module number -> generated text with paths removed

    def generate(self, models, variants=(("off", {"simplify": False}), ("on", {"simplify": True}))):
        """models: list of bytes. Returns [{variant: {'res': ..., 'rs': path}}]."""
        os.makedirs(f"{self.dir}/onnx", exist_ok=True)
        reqs = []
        for k, b in enumerate(models):
            with open(f"{self.dir}/onnx/m{k}.onnx", "wb") as fh:
                fh.write(b)
            for name, opt in variants:
                reqs.append(dict(opt, cmd="gen", inputs=[f"{self.dir}/onnx/m{k}.onnx"], out_dir=f"{self.dir}/{name}"))
        for name, _ in variants:
            os.makedirs(f"{self.dir}/{name}", exist_ok=True)
        res = self.ctx.drive(reqs)
        out, it = [], iter(res)
        for k in range(len(models)):
            d = {}
            for name, _ in variants:
                r = next(it)
                r["rs"] = f"{self.dir}/{name}/m{k}.rs"
                d[name] = r
            out.append(d)
        return out

    def text(self, path):
        t = open(path, encoding="utf-8").read()
        v = path[len(self.dir) + 1:].split("/")[0]
        return t.replace(f"{self.dir}/{v}/", "@/")

    def build_and_run(self, jobs, per=250, deadline=None):
        """jobs: list of {'rs', 'nin', 'feeds': [text], 'new': constructor expression}. Adds to each 'errors' (compile errors) or 'runs'."""
        todo = list(range(len(jobs)))
        chunks = []
        n = max(NCPU, -(-len(todo) // per))
        n = min(n, max(1, len(todo) // 8) or 1)
        chunks = [todo[i::n] for i in range(n)]
        errs = []

        def one(ci):
            try:
                self._chunk(ci, jobs, chunks[ci])
            except Exception as e:
                errs.append(e)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, range(len(chunks))))
        if errs:
            raise errs[0] if isinstance(errs[0], ToolError) else ToolError(f"pipeline: {errs[0]!r}")

    def _chunk(self, ci, jobs, ids):
        libs = self.ctx.libs
        live = list(ids)
        d = f"{self.dir}/bin"
        os.makedirs(d, exist_ok=True)
        for rnd in range(12):
            if not live:
                return
            lines, where = ["#![allow(warnings)]", "extern crate alloc;", "use glue::{arg, dump, serve, Runner, B};"], {}
            for j in live:
                path = jobs[j]["rs"]
                lines.append(f'#[path = "{path}"] mod m{j};')
                where[len(lines)] = j
                new = jobs[j].get("new") or f"m{j}::Model::<B>::default()"
                args = ", ".join(["arg(&mut it)"] * jobs[j]["nin"])
                if jobs[j].get("body"):
                    lines.append(f"fn r{j}(v: Vec<glue::burn::nd::Nd>) -> Vec<String> {{ {jobs[j]['body'].replace('@', f'm{j}')} }}")
                    where[len(lines)] = j
                    continue
                lines.append(f"fn r{j}(v: Vec<glue::burn::nd::Nd>) -> Vec<String> {{ let mut it = v.into_iter(); let m = {new.replace('@', f'm{j}')}; dump(m.forward({args})) }}")
                where[len(lines)] = j
            lines.append("fn main() { serve(|k| -> Runner { match k {")
            lines += [f"{j} => r{j}," for j in live]
            lines.append("_ => panic!() } }) }")
            main = f"{d}/c{ci}.rs"
            with open(main, "w") as fh:
                fh.write("\n".join(lines) + "\n")
            cmd = ["rustc", "--edition", "2024", "--crate-type", "bin", "--crate-name", f"c{ci}", main, "-o", f"{d}/c{ci}", "--error-format", "json",
                   "-C", "debuginfo=0", "-C", "codegen-units=4", "-L", f"dependency={TARGET}/debug/deps", "--cap-lints", "allow"]
            for l in ("burn", "burn_store", "glue", "burn_tensor"):
                cmd += ["--extern", f"{l}={libs[l]}"]
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=d)
            if r.returncode == 0:
                break
            bad = {}
            for line in r.stderr.split("\n"):
                if not line.startswith("{"):
                    continue
                o = json.loads(line)
                if o.get("level") != "error":
                    continue
                hit = set()
                for s in all_spans(o):
                    f = s["file_name"]
                    m = re.search(r"/m(\d+)\.rs$", f)
                    if f == main:
                        j = where.get(s["line_start"])
                        if j is not None:
                            hit.add(j)
                    elif m:
                        hit |= {j for j in live if jobs[j]["rs"] == f}
                for j in hit:
                    bad.setdefault(j, []).append(o["message"] + " :: " + (o["spans"][0]["text"][0]["text"].strip() if o["spans"] and o["spans"][0]["text"] else ""))
            if not bad and len(live) > 1:
                h = len(live) // 2
                self._chunk(f"{ci}_0", jobs, live[:h])
                self._chunk(f"{ci}_1", jobs, live[h:])
                return
            if not bad:
                bad = {live[0]: [json.loads(l)["message"] for l in r.stderr.split("\n") if l.startswith("{")][:1] or [r.stderr[-500:]]}
            for j, e in bad.items():
                jobs[j]["errors"] = e
            live = [j for j in live if j not in bad]
        else:
            raise ToolError("generated code still does not compile after dropping modules 12 times")
        work = [(j, k) for j in live for k in range(len(jobs[j]["feeds"]))]
        for j in live:
            jobs[j]["runs"] = [None] * len(jobs[j]["feeds"])
        while work:
            p = subprocess.Popen([f"{d}/c{ci}"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=d)
            data = "".join(f"{j} {j}.{k} {jobs[j]['feeds'][k]}\n" for j, k in work)
            try:
                out, _ = p.communicate(data, timeout=60)
                why = f"process ended with {p.returncode}"
            except subprocess.TimeoutExpired:
                p.kill()
                out, _ = p.communicate()
                why = "does not end"
            done = 0
            for line in out.split("\n"):
                if line.startswith('{"case"'):
                    try:
                        o = json.loads(line)
                    except ValueError:
                        if "panic" not in line:
                            continue
                        o = {"case": line.split('"')[3], "panic": line}
                    j, k = map(int, o["case"].split("."))
                    jobs[j]["runs"][k] = o
                    done += 1
            work = [w for w in work if jobs[w[0]]["runs"][w[1]] is None]
            if work:
                j, k = work[0]
                jobs[j]["runs"][k] = {"panic": why}
                work = work[1:]
        os.remove(f"{d}/c{ci}")


def all_spans(o):
    for s in o.get("spans", []):
        yield s
        x = s.get("expansion")
        while x:
            yield x["span"]
            x = x["span"].get("expansion")
    for c in o.get("children", []):
        yield from all_spans(c)


def describe(c):
    """What a case is, independent of its number: the operator under test, its attributes and its operands."""
    n = c["nodes"][-1]
    ins = {i["n"]: i for i in c["ins"]}
    inits = {i["n"]: i["x"] for i in c["inits"]}
    made = {o: m for m in c["nodes"][:-1] for o in m["out"]}

    def ty(x):
        v = ""
        if x["t"] != "F32" and len(x["v"]) <= 6 and all(e["k"] == "q" for e in x["v"]):
            v = "=" + ",".join(str(k) for k in values(x))
        return f"{x['t']}{json.dumps(x['s']).replace(' ', '')}{v}"

    def operand(o):
        if o == "":
            return "-"
        if o in ins:
            return ("dyn " if ins[o].get("dyn") else "in ") + ty(dict(ins[o]["x"], v=ins[o]["x"]["v"] if ins[o]["x"]["t"] == "I64" and len(ins[o]["x"]["s"]) < 2 else [0] * 9))
        if o in inits:
            return "init " + ty(inits[o])
        m = made.get(o)
        if m is None:
            return "?"
        if m["op"] == "Constant":
            return "const " + ty(m["at"]["value"]["v"]) if "value" in m["at"] else "const"
        if m["op"] == "Shape":
            return "shape " + ",".join(map(str, ins[m["in"][0]]["x"]["s"]))
        return m["op"]

    def av(a):
        if a["ty"] == "t":
            return ty(a["v"])
        if a["ty"] == "g":
            return "g"
        if a["ty"] == "f":
            return f"{ev(a['v']):g}"
        if a["ty"] == "floats":
            return ",".join(f"{ev(x):g}" for x in a["v"])
        return ",".join(map(str, a["v"])) if a["ty"] in ("ints", "strings") else str(a["v"])
    at = " ".join(f"{k}={av(v)}" for k, v in sorted(n["at"].items())) if n["at"] else ""
    return f"{n['op']}{{{at}}}({'; '.join(operand(o) for o in n['in'])}) -> {len(n['out'])} v{c['opset']}"


def program(c):
    """A model as text: what it consists of, one node after the other."""
    def lit(x):
        v = [ev(e) for e in x["v"]]
        return f"{x['t']}{json.dumps(x['s']).replace(' ', '')}" + (f"={v[0]:g}" if v and len(set(v)) == 1 else "=" + ",".join(f"{k:g}" for k in v) if len(v) <= 6 else "")

    def av(a):
        if a["ty"] == "t":
            return lit(a["v"])
        if a["ty"] == "g":
            return "[" + graph(a["v"]) + "]"
        if a["ty"] == "f":
            return f"{ev(a['v']):g}"
        if a["ty"] == "floats":
            return ",".join(f"{ev(x):g}" for x in a["v"])
        return ",".join(map(str, a["v"])) if a["ty"] in ("ints", "strings") else str(a["v"])

    def graph(g):
        inits = {i["n"]: i["x"] for i in g.get("inits", [])}
        out = []
        for n in g["nodes"]:
            at = "{" + " ".join(f"{k}={av(v)}" for k, v in sorted(n["at"].items())) + "}" if n["at"] else ""
            out.append(f"{','.join(n['out'])}={n['op']}{at}({', '.join(lit(inits[i]) if i in inits else i for i in n['in'])})")
        return "; ".join(out)
    ins = ", ".join(f"{i['n']}:{'dyn ' if i.get('dyn') else ''}{i['x']['t']}{json.dumps(i['x']['s']).replace(' ', '')}" for i in c["ins"])
    return f"({ins}) {graph(c)} -> {','.join(o['n'] for o in c['outs'])}"


def run_cases(ctx, cases, variants=(("off", {"simplify": False}), ("on", {"simplify": True})), tag="e2e"):
    """Returns [(case, variant, verdict, text)] with verdict in ok | wrong | refused | nocompile | panic."""
    pl = Pipeline(ctx, tag)
    gens = pl.generate([encode(c) for c in cases], variants)
    jobs, owners, seen, out = [], [], {}, []
    for c, g in zip(cases, gens):
        for v, _ in variants:
            r = g[v]
            if r["res"] != "ok":
                out.append((c, v, "refused", r.get("msg", r["res"]), None))
                continue
            t = (pl.text(r["rs"]), c["id"])
            if t in seen:
                owners[seen[t]].append((c, v))
                continue
            seen[t] = len(jobs)
            jobs.append({"rs": r["rs"], "nin": len(c["ins"]), "feeds": [feed(c)]})
            owners.append([(c, v)])
    ctx.log(f"generated {len(cases)} models x {len(variants)}, {len(jobs)} distinct modules, {len(out)} refusals")
    pl.build_and_run(jobs)
    ctx.log("compiled and ran them")
    for j, own in zip(jobs, owners):
        for c, v in own:
            if "errors" in j:
                out.append((c, v, "nocompile", "; ".join(j["errors"][:3]), j["rs"]))
                continue
            r = j["runs"][0]
            if "panic" in r:
                out.append((c, v, "panic", r["panic"], j["rs"]))
                continue
            d = compare(c["outs"], r["ok"])
            verdict = "wrong" if d else "ok"
            if d and joined(c["outs"], r["ok"]):
                verdict = "concatenated"
            out.append((c, v, verdict, d, j["rs"]))
    return out

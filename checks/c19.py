"""C19: node builders and the printed form of nodes are faithful."""
import re, struct
from core import ToolError

NAMES = {"@q": 'with "quotes"', "@u": "ünï→", "@nl": "two\nlines"}
OP = {"plain": "Plain", "configured": "Configured", "node": "Node", "nodeconfig": "NodeConfig", "first": "First", "Abs": "Abs", "Concat": "Concat"}
BIG = 1 << 40


def nm(s):
    return NAMES.get(s, s)


def dbg(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


def ty_text(t):
    if t["k"] == "Tensor":
        dims = [str(d) for d in t["static"]] if t["static"] is not None else ["?"] * t["rank"]
        return f"{t['dtype']}[{', '.join(dims)}]"
    return f"Shape({t['rank']})" if t["k"] == "Shape" else f"{t['k']}({t['dtype']})"


def arg(a):
    t = a["ty"]
    st = None if t["static"][0] == "none" else list(t["static"][1])
    v = None
    if a["value"]:
        v = {"dtype": "I64", "shape": [], "hex": struct.pack("<q", conc(a["value"][0])).hex()}
    return {"name": nm(a["name"]), "src": a["src"], "ty": {"k": t["k"], "dtype": t["dtype"], "rank": t["rank"], "static": st}, "value": v}


def arg_text(a):
    if a["src"] == "Optional":
        return "<optional>"
    return f"{a['name'] or '_'}: {ty_text(a['ty'])}" + (" [static(N)]" if a["src"] == "Static" else "")


def cfg_text(kind, v):
    if kind == "Concat":
        return ["ConcatConfig {", f"    axis: {abs(v)},", "}"]
    c = ["Cfg {", f"    a: {v},", "    b: [", f"        {float(v)!r},", "        0.5,", "    ],", "}"]
    if kind == "nodeconfig":
        return ["Some(", "    ["] + ["        " + x for x in c[:-1]] + ["        },", "    ],", ")"]
    return c


def text(e, name):
    n = e["node"]
    out = [f"{OP[e['kind']]} {dbg(name)}", "  Inputs:"] + ["    " + arg_text(arg(a)) for a in n["ins"]] + ["  Outputs:"] + ["    " + arg_text(arg(a)) for a in n["outs"]]
    if n["config"]:
        out += ["  Config:"] + ["    " + l for l in cfg_text(e["kind"], n["config"][0])]
    return "\n".join(out) + "\n"


def conc(v):
    """The number a number of the specification stands for; small ones stand for themselves."""
    return v if v % 3 else v * (1 << 36) + (1 << 33)


def run(ctx):
    q = not ctx.thorough
    ctx.build_driver()
    n = 0
    names = ["n", 'quo"te', "", "ünï", "conv1"]
    for k, (fam, most, a, b) in enumerate([("short", 3 if q else 4, 0, 0), ("values", 1 if q else 2, 0, 0),
                                           ("random", 12, ctx.seed * 100000, ctx.seed * 100000 + (6000 if q else 60000))]):
        em = ctx.tlc("NodeBuilder", {"Family": f'"{fam}"', "MaxCalls": most, "From": a, "To": b}, invariants=["Faithful"], tag=f"NodeBuilder{k}", timeout=1500)
        if em.error:
            raise ToolError("the specification itself is wrong: " + em.error)
        em = list(em)
        reqs = []
        for j, e in enumerate(em):
            calls = []
            for c in e["calls"]:
                calls.append({"call": c["m"], "name": nm(c["name"]), "dtype": c["dtype"], "rank": c["rank"], "shape": c["shape"],
                              "value": conc(c["value"]), "a": abs(c["value"]) if e["kind"] == "Concat" else c["value"]})
            reqs.append({"cmd": "build", "node": e["kind"], "name": names[j % len(names)], "calls": calls})
        for e, rq, r in zip(em, reqs, ctx.drive(reqs)):
            n += 1
            ctx.count(f"{fam} {e['kind']}:{'fails' if e['fails'] else 'builds'}")
            key = f"{e['kind']} {[c['m'] for c in e['calls']]}"
            if e["fails"] or r["res"] != "ok":
                if e["fails"] != (r["res"] == "panic"):
                    ctx.violation(key + (" built without its configuration" if e["fails"] else " does not build"), {"case": e, "got": r})
                continue
            want = {"name": rq["name"], "inputs": [arg(x) for x in e["node"]["ins"]], "outputs": [arg(x) for x in e["node"]["outs"]]}
            got = {"name": r["name"], "inputs": [{k: v for k, v in x.items() if k != "text"} for x in r["inputs"]],
                   "outputs": [{k: v for k, v in x.items() if k != "text"} for x in r["outputs"]]}
            if want != got:
                ctx.violation(key + " node", {"case": e, "expected": want, "got": got})
                continue
            if e["node"]["config"] and e["kind"] != "Concat" and f"a: {e['node']['config'][0]}," not in r["debug"]:
                ctx.violation(key + " configuration", {"case": e, "got": r["debug"]})
            wt, gt = text(e, rq["name"]), re.sub(r"\[static\(\d+\)\]", "[static(N)]", r["text"])
            if wt != gt:
                ctx.violation(key + " printed form", {"case": e, "expected": wt, "got": gt})
        ctx.sample({"family": fam, "case": em[len(em) // 2]})
    # the printed form of every imported node names its operator and its operands
    return "model_checking", n

"""Models and the graphs the code imports them to, judged by Wiring.tla."""
import collections
import hashlib
import json
import os
import re
import concurrent.futures as cf
import e2e, onnxenc
from core import NCPU, ToolError


def cid(dtype, raw):
    return f"{dtype}:{hashlib.sha256(raw).hexdigest()[:16]}"


def content(x):
    t = e2e.tens(x)
    return cid(x["t"], onnxenc.raw(t["dtype"], t["data"]))


class Batch:
    """A case and a dumped graph, reduced to what Wiring.tla reads: values by their content."""

    def __init__(self):
        self.memo = {}

    def c(self, x):
        k = json.dumps(x, sort_keys=True)
        if k not in self.memo:
            self.memo[k] = content(x)
        return self.memo[k]

    def val(self, n, x, known=True):
        return {"n": n, "t": x["t"], "s": x["s"], "c": self.c(x) if known else ""}

    def graph(self, g, mid=None, types=None):
        """A graph of the model; types: sample values of a body's names, of which only type and shape count."""
        nodes, vals = [], []
        for j, n in enumerate(g["nodes"]):
            subs = {}
            for k, a in (n["at"] or {}).items():
                if a["ty"] == "g":
                    subs[k] = self.graph(a["v"], None, a["v"].get("types") or {})
                elif n["op"] == "Constant" and a["ty"] == "t":
                    vals.append(self.val(n["out"][0], a["v"]))
            at = json.dumps({k: a for k, a in (n["at"] or {}).items() if a["ty"] != "g"}, sort_keys=True)
            nodes.append({"op": n["op"], "in": list(n["in"]), "out": list(n["out"]), "at": hashlib.sha256(at.encode()).hexdigest()[:8],
                          "subs": [subs[k] for k in ("then_branch", "else_branch", "body") if k in subs]})
            if mid is not None:
                vals += [self.val(o, x[0]) for o, x in zip(n["out"], mid[j]) if x]
        outs = [o if isinstance(o, str) else o["n"] for o in g["outs"]]
        ins = [i if isinstance(i, str) else i["n"] for i in g.get("ins", [])]
        vals += [self.val(i["n"], i["x"]) for i in g.get("inits", [])]
        if types is None:
            vals += [self.val(i["n"], i["x"]) for i in g["ins"]] + [self.val(o["n"], o["x"]) for o in g["outs"]]
        else:
            have = {v["n"] for v in vals}
            own = set(ins) | {o for n in g["nodes"] for o in n["out"]}
            vals += [self.val(k, x, False) for k, x in types.items() if k not in have and k in own]
        return {"ins": ins, "inits": [i["n"] for i in g.get("inits", [])], "nodes": nodes, "outs": outs, "vals": vals}

    def arg(self, a):
        t = a["ty"]
        v = a.get("value")
        c = ""
        if v:
            c = cid(v["dtype"].split("(")[0], bytes.fromhex(v["hex"])) if "hex" in v else "?"
        st = t["static"]
        return {"n": a["name"], "src": a["src"], "k": t["k"], "t": t["dtype"].split("(")[0], "r": t["rank"], "c": c,
                "st": [] if st is None else [[] if d is None else [d] for d in st], "has": st is not None}

    def ir(self, g):
        return {"ins": [self.arg(a) for a in g["inputs"]], "outs": [self.arg(a) for a in g["outputs"]],
                "nodes": [{"op": n["op"], "n": n["name"], "in": [self.arg(a) for a in n["inputs"]], "out": [self.arg(a) for a in n["outputs"]],
                           "refs": n["refs"] or [], "subs": [self.ir(s["graph"]) for s in n["subs"]]} for n in g["nodes"]]}


def imports(ctx, cases, variants=(False, True)):
    """[(case, simplified, answer)]"""
    d = f"{ctx.dir}/ir"
    os.makedirs(d, exist_ok=True)
    reqs, own = [], []
    for k, c in enumerate(cases):
        p = f"{d}/{k}.onnx"
        with open(p, "wb") as fh:
            fh.write(e2e.encode(c))
        for s in variants:
            reqs.append({"cmd": "ir", "path": p, "simplify": s, "values": True})
            own.append((c, s))
    return [(c, s, r) for (c, s), r in zip(own, ctx.drive(reqs))]


def judge(ctx, imported):
    """[(case, simplified, answer, what Wiring.tla holds against it)]"""
    b = Batch()
    n = NCPU
    paths = []
    for i in range(n):
        part = [{"id": k, "on": s, "model": b.graph(c, c.get("mid")), "graph": b.ir(r["graph"])}
                for k, (c, s, r) in list(enumerate(imported))[i::n]]
        if part:
            p = f"{ctx.dir}/wiring-{i}.json"
            with open(p, "w") as fh:
                json.dump(part, fh)
            paths.append(p)

    def one(p):
        e = ctx.tlc("Wiring", {"File": f'"{p}"'}, invariants=["Emit"], tag=os.path.basename(p)[:-5], workers=1, heap="3g")
        if e.error:
            raise ToolError(f"Wiring: {e.error}")
        return list(e)
    with cf.ThreadPoolExecutor(n) as ex:
        got = [v for part in ex.map(one, paths) for v in part]
    bad = {v["id"]: v["bad"] for v in got}
    if len(bad) != len(imported):
        raise ToolError(f"Wiring judged {len(bad)} of {len(imported)}")
    return [(c, s, r, bad[k]) for k, (c, s, r) in enumerate(imported)]


def check(ctx, prop):
    """Imports every model of the specifications and reports what Wiring.tla holds against the graphs under the given property."""
    import models
    ctx.build_driver()
    cases = models.all_cases(ctx)
    got = imports(ctx, cases, (True,) if prop == "C18" else (False, True))
    ok = [(c, s, r) for c, s, r in got if r["res"] == "ok"]
    ctx.count("refused", len(got) - len(ok))
    nodes = collections.Counter()
    for c, s, r, bad in judge(ctx, ok):
        ctx.count("graphs")
        for n in r["graph"]["nodes"]:
            nodes[n["op"]] += 1
        for m in sorted(bad):
            if m.startswith(prop):
                # names the importer chose are not part of what identifies a finding
                ctx.violation(f"{re.sub(r'[^ ]+ [(]([A-Za-z0-9]+)[)]', r'[\1]', m[4:])} in {models.key(c)}",
                              {"case": c, "simplified": s, "what": m, "graph": r["graph"]})
            else:
                ctx.count(f"of {m[:3]}")
    ctx.cov["models"] = len(cases)
    ctx.cov["operators in the graphs"] = len(nodes)
    ctx.sample({"model": models.key(ok[0][0]), "graph": [n["op"] for n in ok[0][2]["graph"]["nodes"]]})
    return "model_checking", len(ok)

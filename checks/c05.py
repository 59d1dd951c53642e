"""C05: tensor data of the model reach the graph exactly, however they are written; data that do not fit are refused."""
import json
import os
import onnxenc as ox

FIELDS = {"f": (4, 5), "d": (10, 1), "i32": (5, 0), "i64": (7, 0), "u64": (11, 0)}


def unit(field, b):
    if field in ("f", "d"):
        return bytes(b)
    return ox.varint(int.from_bytes(bytes(b), "little", signed=field in ("i32", "i64")))


def proto(m, name, file):
    o = b"".join(ox.vi(1, d) for d in m["dims"]) + ox.vi(2, m["code"] if m["code"] >= 0 else ox.DT[m["t"]])
    for f, units in m["f"].items():
        if units:
            no, wt = FIELDS[f]
            if m["packed"]:
                o += ox.ld(no, b"".join(unit(f, u) for u in units))
            else:
                o += b"".join(ox.key(no, wt) + unit(f, u) for u in units)
    if m["raw"]:
        o += ox.ld(9, bytes(m["raw"]))
    e = m["ext"]
    if e["on"]:
        for k, v in [("location", file)] + ([("offset", str(e["offset"]))] if e["offset"] else []) + ([("length", str(e["length"]))] if e["length"] >= 0 else []):
            o += ox.ld(13, ox.ld(1, k) + ox.ld(2, v))
        o += ox.vi(14, 1)
    return o + ox.ld(8, name)


def cast(src, out):
    return ox.ld(1, ox.ld(1, src) + ox.ld(2, out) + ox.ld(4, "Cast") + ox.ld(5, ox.attr("to", "i", 1)))


def constant(attr):
    return ox.ld(1, ox.ld(2, "w") + ox.ld(4, "Constant") + ox.ld(5, attr))


def model(place, tensor=None, attr=None, dt="F32", rank=None):
    """A model that casts the tensor w, which is an initializer or made by a Constant node, in the graph or in the branch of an If."""
    own = ox.ld(5, tensor) if place.startswith("init") else constant(attr or ox.ld(1, "value") + ox.ld(5, tensor) + ox.vi(20, 4))
    body = own + cast("w", "z")
    if place.endswith("branch"):
        def branch(nodes):
            return nodes + ox.ld(2, "b") + ox.ld(12, ox.value_info("z", "F32", None if rank is None else [None] * rank))
        other = ox.ld(1, ox.ld(1, "x") + ox.ld(2, "z") + ox.ld(4, "Identity"))
        g = ox.ld(1, ox.ld(1, "c") + ox.ld(2, "y") + ox.ld(4, "If")
                  + ox.ld(5, ox.ld(1, "then_branch") + ox.ld(6, branch(body)) + ox.vi(20, 5)) + ox.ld(5, ox.ld(1, "else_branch") + ox.ld(6, branch(other)) + ox.vi(20, 5)))
        g += ox.ld(11, ox.value_info("c", "Bool", []))
    else:
        g = body + ox.ld(1, ox.ld(1, "z") + ox.ld(2, "y") + ox.ld(4, "Identity"))
    g += ox.ld(2, "g") + ox.ld(11, ox.value_info("x", "F32", [None] * (rank or 0))) + ox.ld(12, ox.value_info("y", "F32", None if rank is None else [None] * rank))
    return ox.vi(1, 9) + ox.ld(7, g) + ox.ld(8, ox.vi(2, 18))


def found(graph):
    """[(type, shape, hex)] of what the Cast of w reads, or None."""
    for n in graph["nodes"]:
        if n["op"] == "Cast":
            a = n["inputs"][0]
            made = {o["name"]: o for m in graph["nodes"] for o in m["outputs"]}
            v = a.get("value") or made.get(a["name"], {}).get("value")
            t = a["ty"]
            return None if v is None else (v["dtype"], v["shape"], v["hex"], t["dtype"], t["rank"] if t["k"] == "Tensor" else {"Shape": 1}.get(t["k"], 0))
        for s in n["subs"]:
            r = found(s["graph"])
            if r:
                return r
    return None


def run(ctx):
    ctx.build_driver()
    deep = ctx.tier == "thorough"
    e = ctx.tlc("TensorData", {"Steps": 2 if deep else 1, "Long": "TRUE" if deep else "FALSE"}, invariants=["Inverse", "Exact", "Emit"])
    if e.error:
        from core import ToolError
        raise ToolError(e.error)
    seen, cases = set(), []
    for c in e:
        k = json.dumps(c["msg"], sort_keys=True)
        if k not in seen:
            seen.add(k)
            cases.append(c)
    ctx.log(f"TLC wrote {len(cases)} messages")
    d = f"{ctx.dir}/models"
    os.makedirs(d, exist_ok=True)
    reqs, own = [], []

    def add(blob, c, place, want, what):
        p = f"{d}/{len(reqs)}.onnx"
        with open(p, "wb") as fh:
            fh.write(blob)
        reqs.append({"cmd": "ir", "path": p, "simplify": False, "values": True})
        own.append((c, place, want, what))

    for k, c in enumerate(cases):
        m = c["msg"]
        if m["ext"]["on"]:
            with open(f"{d}/{k}.bin", "wb") as fh:
                fh.write(bytes(m["ext"]["file"]))
        dims = m["dims"]
        want = [(m["t"], dims, bytes(c["bytes"]).hex())] if c["ok"] else []
        if not c["ok"] or c["either"]:
            want.append("refused")
        what = f"{m['t'] if m['code'] < 0 else m['code']}{dims} {c['how']}" + "".join(f", {x}" for x in c["did"])
        for place in ["init", "const", "init in a branch", "const in a branch"] if deep or not c["did"] or k % 3 == 0 else ["init", "const"]:
            add(model(place.replace(" in a ", "-"), proto(m, "w", f"{k}.bin"), None, m["t"], len(dims)), c, place, want, f"{what}, {place}")
    # the other forms of Constant: numbers as attributes
    F = [[0, 0, 128, 63], [0, 0, 0, 128], [0, 0, 128, 127], [1, 0, 160, 255], [1, 0, 0, 0], [255, 255, 127, 127]]
    I = [0, 1, -1, (1 << 63) - 1, -(1 << 63), 1 << 53]
    forms = []
    for k in range(len(F)):
        forms.append(("value_float", ox.key(2, 5) + bytes(F[k]) + ox.vi(20, 1), [("F32", [], bytes(F[k]).hex())]))
        forms.append(("value_int", ox.vi(3, I[k]) + ox.vi(20, 2), [("I64", [], I[k].to_bytes(8, "little", signed=True).hex())]))
        fs, js = F[:k], I[:k]
        forms.append(("value_floats", b"".join(ox.key(7, 5) + bytes(x) for x in fs) + ox.vi(20, 6), [("F32", [k], b"".join(map(bytes, fs)).hex())]))
        forms.append(("value_ints", b"".join(ox.vi(8, x) for x in js) + ox.vi(20, 7), [("I64", [k], b"".join(x.to_bytes(8, "little", signed=True) for x in js).hex())]))
    forms.append(("value_string", ox.ld(4, "a") + ox.vi(20, 3), ["refused"]))
    forms.append(("value_strings", ox.ld(9, "a") + ox.vi(20, 8), ["refused"]))
    for name, blob, want in forms:
        for place in ["const", "const in a branch"]:
            r = len(want[0][1]) if want[0] != "refused" else 0
            add(model(place.replace(" in a ", "-"), None, ox.ld(1, name) + blob, "F32", r), {"attr": name}, place, want, f"{name} {want[0] if want[0] == 'refused' else want[0][2]}, {place}")
    for (c, place, want, what), r in zip(own, ctx.drive(reqs)):
        ctx.count(f"{place.split()[0]}:{r['res']}")
        got = "refused"
        if r["res"] == "ok":
            f = found(r["graph"])
            got = "no value" if f is None else (f[0].split("(")[0], f[1], f[2])
            if f and got in want and (f[3].split("(")[0] != got[0] or f[4] != len(got[1])):
                got = f"value {got} of declared type {f[3]} and rank {f[4]}"
        if got not in want:
            ctx.violation(what, {"case": c, "place": place, "got": got, "want": want, "answer": {k: v for k, v in r.items() if k != "graph"}})
        elif got != "refused":
            ctx.sample({"case": what, "value": got})
    ctx.cov["messages"] = len(cases)
    return "model_checking", len(own)

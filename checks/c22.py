"""C22: numbers are written into the generated code without change."""
import math
import struct
import concurrent.futures as cf
import e2e, onnxenc
from core import NCPU, ToolError

ON, OFF = ("on", {"simplify": True}), ("off", {"simplify": False})
FLOATS = {"F32": ("<f", "<I"), "F64": ("<d", "<Q"), "F16": ("<e", "<H")}
SIZE = {"F32": 32, "F64": 64, "F16": 16, "BF16": 16}


def mag(a):
    m = 0
    for w in a["w"]:
        m = m << 16 | w
    return m


def number(t, a):
    """The number as Python has it; the pattern of floats is kept, as every value of the narrower types is one of float."""
    if t == "Bool":
        return bool(mag(a))
    if t == "BF16":
        return struct.unpack("<f", struct.pack("<I", (mag(a) | a["neg"] << 15) << 16))[0]
    if t in FLOATS:
        f, i = FLOATS[t]
        return struct.unpack(f, struct.pack(i, mag(a) | a["neg"] << SIZE[t] - 1))[0]
    return -mag(a) if a["neg"] else mag(a)


def elem(t, a):
    if t in SIZE:
        return ("bits", mag(a) | a["neg"] << SIZE[t] - 1)
    return number(t, a)


def tens(x, name=""):
    return {"name": name, "dtype": x["t"], "shape": x["s"], "data": [elem(x["t"], a) for a in x["v"]]}


def encode(c):
    f = c["f"]
    ins, inits, names = [], [], []
    for k, o in enumerate(f["ops"]):
        n = f"x{k + 1}" if o["k"] != "gone" else ""
        names.append(n)
        if o["k"] == "in":
            ins.append({"name": n, "dtype": o["x"]["t"], "shape": o["x"]["s"]})
        elif o["k"] == "init":
            inits.append(tens(o["x"], n))
    at = []
    for a in f["at"]:
        v = a["v"]
        one = number(v["t"], v["v"][0])
        at.append({"name": a["n"], "type": a["ty"], "v": {"f": one, "i": one, "t": tens(v), "floats": [number("F32", q) for q in v["v"]] if a["ty"] == "floats" else 0,
                                                          "ints": [number("I64", q) for q in v["v"]] if a["ty"] == "ints" else 0}[a["ty"]]})
    return onnxenc.model({"nodes": [{"op": f["op"], "in": names, "out": ["y"], "name": "n", "attrs": at}], "inits": inits, "inputs": ins,
                          "outputs": [{"name": "y", "dtype": f["out"]["t"], "shape": f["out"]["s"]}], "opset": c["opset"]})


def feed(c):
    w = []
    for o in c["f"]["ops"]:
        if o["k"] == "in":
            x = o["x"]
            w += [x["t"], str(len(x["s"]))] + [str(d) for d in x["s"]]
            v = [number(x["t"], a) for a in x["v"]]
            w += [repr(q) if isinstance(q, float) else str(int(q)) if x["t"] != "Bool" else str(int(q)) for q in v]
    return " ".join(w)


def same(a, b, zeros):
    if isinstance(a, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and (a != 0 or zeros or math.copysign(1, a) == math.copysign(1, b))
    return a == b


def wrong(c, got):
    f = c["f"]
    x = f["out"]
    if len(got) != 1:
        return f"{len(got)} results"
    g = got[0]
    if g["t"] != x["t"]:
        return f"element type {g['t']} instead of {x['t']}"
    gv = [float(v) if isinstance(v, str) else v for v in g["v"]]
    if f["law"] in ("exact", "zeros"):
        want = [number(x["t"], a) for a in x["v"]]
        if len(want) != len(gv) or not all(same(a, b, f["law"] == "zeros") for a, b in zip(want, gv)):
            return f"{gv} instead of {want}"
        return ""
    a = number("F32", c["a"])
    want = {"one by the root": [1 / math.sqrt(a)], "one and minus one by the root of it and one": [1 / math.sqrt(a + 1), -1 / math.sqrt(a + 1)], "one by it": [1 / a]}[f["law"]]
    if len(want) != len(gv) or not all(abs(p - q) <= 1e-5 * abs(p) for p, q in zip(want, gv)):
        return f"{gv} instead of about {want}"
    return ""


def show(c):
    a = c["a"]
    return f"{'-' if a['neg'] else ''}{''.join('%04x' % w for w in a['w'])} ({number(c['t'], a)!r})"


def run(ctx):
    ctx.build_driver()
    types = ["F32", "F64", "F16", "BF16", "I8", "I16", "I32", "I64", "U8", "U16", "U32", "U64"]

    def one(t):
        r = ctx.tlc("Numbers", {"Types": '{"%s"}' % t, "Wide": "TRUE" if ctx.thorough else "FALSE"}, invariants=["Emit", "Sound"], tag=f"numbers-{t}", workers=1, heap="2g")
        if r.error:
            raise ToolError(f"Numbers {t}: {r.error}")
        return list(r)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        cases = [c for part in ex.map(one, types) for c in part]
    ctx.log(f"TLC gave {len(cases)} numbers in places")
    variants = (OFF, ON) if ctx.thorough else (ON,)
    # a form with a plain number first: what is not supported at all says nothing on numbers
    form = lambda c: (c["t"], c["f"]["form"])
    plain = {form(c): c for c in cases if c["plain"]}
    sound = {f for (f, c), rs in zip(plain.items(), play(ctx, list(plain.values()), variants, "plain")) if all(v == "ok" for v, _ in rs)}
    ctx.cov["forms"] = len(sound)
    ctx.cov["forms not supported with any number"] = sorted(f"{t} {f}" for t, f in plain if (t, f) not in sound)
    ctx.log(f"{len(sound)} of {len(plain)} forms are supported")
    rest = [c for c in cases if not c["plain"] and form(c) in sound]
    for c, rs in zip(rest, play(ctx, rest, variants, "all")):
        for v, what in rs:
            ctx.count(f"{v}")
            if v != "ok":
                ctx.violation(f"{v}: {c['t']} {c['f']['form']} {show(c)}", {"case": c, "what": what})
            else:
                ctx.count(f"type:{c['t']}")
    return "model_checking", len(rest)


def play(ctx, cases, variants, tag):
    pl = e2e.Pipeline(ctx, tag)
    gens = pl.generate([encode(c) for c in cases], variants)
    jobs, at = [], []
    for c, g in zip(cases, gens):
        row = []
        for v, _ in variants:
            r = g[v]
            if r["res"] != "ok":
                row.append((r.get("msg", r["res"]), None))
                continue
            row.append(("", len(jobs)))
            jobs.append({"rs": r["rs"], "nin": sum(o["k"] == "in" for o in c["f"]["ops"]), "feeds": [feed(c)]})
        at.append(row)
    pl.build_and_run(jobs)
    ctx.log(f"compiled and ran {len(jobs)} modules")
    out = []
    for c, row in zip(cases, at):
        res = []
        for msg, j in row:
            if j is None:
                res.append(("refused", msg))
                continue
            j = jobs[j]
            if "errors" in j:
                res.append(("nocompile", "; ".join(j["errors"][:2])))
            elif "panic" in j["runs"][0]:
                res.append(("panic", j["runs"][0]["panic"]))
            else:
                d = wrong(c, j["runs"][0]["ok"])
                res.append(("wrong" if d else "ok", d))
        out.append(res)
    return out

"""C14: padding attributes mean the same after import."""
import re
import onnxenc
from core import ToolError

OPS = [("Conv", (1, 2, 3)), ("MaxPool", (1, 2, 3)), ("AveragePool", (1, 2, 3)), ("ConvTranspose", (1, 2, 3)), ("DeformConv", (2,)), ("LpPool", (1, 2, 3))]
MODES = ["NOTSET", "SAME_UPPER", "SAME_LOWER", "VALID"]
NOTMODES = ["", "SAME", "same_upper", "SAME_UPPER ", " VALID", "Valid", "NOT_SET", "SAME_LOWER\n", "VALI", "VALIDD", "EXPLICIT", "SAME-UPPER",
            "SAME_UPPE", "NOTSE", "UPPER", "LOWER", "INVALID", "VALID\0", "NOTSET,VALID"]


def model(op, nd, attrs, size=6, kernel=2):
    a = list(attrs)
    ins = ["x"]
    inits = []
    if op in ("Conv", "ConvTranspose", "DeformConv"):
        inits.append({"name": "w", "dtype": "F32", "shape": [1, 1] + [kernel] * nd, "data": [1.0] * kernel ** nd})
        ins.append("w")
    inputs = [{"name": "x", "dtype": "F32", "shape": [1, 1] + [size] * nd}]
    if op == "DeformConv":
        ins.append("off")
        inputs.append({"name": "off", "dtype": "F32", "shape": [1, 8, size - 1, size - 1]})
    a.append({"name": "kernel_shape", "type": "ints", "v": [kernel] * nd})
    if op == "LpPool":
        a.append({"name": "p", "type": "i", "v": 2})
    return onnxenc.model({"nodes": [{"op": op, "in": ins, "out": ["y"], "name": "n", "attrs": a}], "inputs": inputs,
                          "outputs": [{"name": "y", "dtype": "F32", "shape": [None] * (nd + 2)}], "inits": inits, "opset": 19})


def pad_of(debug, nd):
    """The edges the imported node carries, as [begins + ends], or None if it does not say so."""
    m = re.search(r"\bpadding: (Valid|Explicit\(([\d, ]*)\)|\[([\d, ]*)\]|(\d+))", debug)
    if not m:
        return None
    if m[1] == "Valid":
        return [0] * (2 * nd)
    if m[2] is not None:
        return [int(x) for x in m[2].split(",") if x.strip()]
    one = [int(x) for x in m[3].split(",") if x.strip()] if m[3] is not None else [int(m[4])]
    return one * 2 if len(one) == nd else None


def explicit(ctx):
    """Explicit pads: the public padding types, and the configuration of the imported node."""
    em = []
    q = not ctx.thorough
    for dims, vals in [(1, "{0, 1, 2, 3, 4, 5, 900}"), (2, "{0, 1, 2, 3}" if q else "{0, 1, 2, 3, 4}"), (3, "{0, 1, 2}")]:
        e = ctx.tlc("Padding", {"Values": vals, "Dims": "{%d}" % dims, "Negative": "TRUE"}, invariants=["Consistent"], tag=f"Padding{dims}")
        if e.error:
            raise ToolError("the specification itself is wrong: " + e.error)
        em += e
    # The meaning is homogeneous: the same lists with every number multiplied.
    for e in [e for e in em if not e["refused"] and max(e["pads"]) == 2 and min(e["pads"]) < 2][::3 if q else 1]:
        em.append(dict(e, pads=[x * 5_000_000_003 for x in e["pads"]], big=True))
    n = 0
    pos = [e for e in em if not e["refused"]]
    for e, r in zip(pos, ctx.drive([{"cmd": "pad", "dims": e["dims"], "pads": e["pads"]} for e in pos])):
        n += 1
        if "asym" not in r:
            raise ToolError(f"driver: {r}")
        want = {"asym": not e["symmetric"], "tuple": e["pads"], "text": e["pads"]}
        text = [int(x) for x in re.findall(r"\d+", r.get("text", ""))]
        if r["asym"] != want["asym"] or r["tuple"] != want["tuple"] or text != want["text"]:
            ctx.violation(f"config dims={e['dims']} pads={e['pads']}", {"case": e, "got": r})
    for dims in (1, 2, 3):
        r = ctx.drive([{"cmd": "pad", "dims": dims, "pads": [0] * 6, "valid": True}])[0]
        n += 1
        if r["asym"] or any(r["tuple"]):
            ctx.violation(f"config dims={dims} valid", {"got": r})
    reqs, meta = [], []
    for op, dims in OPS:
        for e in em:
            if e["dims"] not in dims or e.get("big") and op != "Conv":
                continue
            for how in ([[]] if e["dims"] == 3 and q else [[], ["NOTSET"]]):
                attrs = [{"name": "pads", "type": "ints", "v": e["pads"]}] + [{"name": "auto_pad", "type": "s", "v": x} for x in how]
                path = f"{ctx.dir}/m{len(reqs)}.onnx"
                with open(path, "wb") as fh:
                    fh.write(model(op, e["dims"], attrs, size=9))
                reqs.append({"cmd": "ir", "path": path})
                meta.append((op, e))
    for (op, e), r in zip(meta, ctx.drive(reqs)):
        n += 1
        nodes = [x for x in r["graph"]["nodes"] if x["op"].startswith(op)] if r["res"] == "ok" else []
        got = pad_of(nodes[0]["debug"], e["dims"]) if nodes else None
        ctx.count(f"{op}{e['dims']}d:{'refused' if r['res'] != 'ok' else 'imported'}")
        if r["res"] != "ok":
            # refusing is right for negative pads, and allowed for what burn cannot express (asymmetric)
            if not e["refused"] and e["symmetric"] and e["dims"] < 3 and op in ("Conv", "MaxPool", "AveragePool", "ConvTranspose") and max(e["pads"]) < 3:
                ctx.violation(f"{op} dims={e['dims']} pads={e['pads']} refused", {"case": e, "got": r})
        elif e["refused"]:
            ctx.violation(f"{op} dims={e['dims']} pads={e['pads']} not refused", {"case": e, "got": str(nodes)[:800]})
        elif got is None:
            raise ToolError(f"the padding of {op} is not readable: {nodes}")
        elif got != e["pads"]:
            ctx.violation(f"{op} dims={e['dims']} pads={e['pads']} got={got}", {"case": e, "got": nodes[0]["debug"]})
    ctx.sample({"case": em[len(em) // 2]}, 2)
    return n


def modes(ctx):
    """The mode strings."""
    n = 0
    reqs = [{"cmd": "pad", "auto_pad": m} for m in MODES + NOTMODES]
    for m, r in zip(MODES + NOTMODES, ctx.drive(reqs)):
        n += 1
        ok = r["res"] == "ok"
        if ok != (m in MODES) or ok and (r["text"] != m or r["mode"].upper() != m.replace("_", "")):
            ctx.violation(f"mode {m!r}", {"mode": m, "got": r})
    reqs, meta = [], []
    for op, dims in OPS:
        for nd in dims:
            for m in MODES + NOTMODES:
                for pads in (None, [1] * 2 * nd):
                    attrs = [{"name": "auto_pad", "type": "s", "v": m}]
                    if pads:
                        attrs.append({"name": "pads", "type": "ints", "v": pads})
                    path = f"{ctx.dir}/a{len(reqs)}.onnx"
                    with open(path, "wb") as fh:
                        fh.write(model(op, nd, attrs))
                    reqs.append({"cmd": "ir", "path": path})
                    meta.append((op, nd, m))
    for (op, nd, m), r in zip(meta, ctx.drive(reqs)):
        n += 1
        ctx.count(f"auto_pad {op}{nd}d {m if m in MODES else 'unknown'}:{r['res']}")
        if r["res"] != "ok":
            if m in MODES and (op == "Conv" or op in ("MaxPool", "AveragePool") and nd < 3):
                ctx.violation(f"{op} dims={nd} mode {m!r} refused", {"got": r})
            continue
        if m not in MODES and op != "DeformConv":
            ctx.violation(f"{op} dims={nd} mode {m!r} not refused", {"got": str(r)[:1500]})
    return n


def run(ctx):
    ctx.build_driver()
    n = explicit(ctx) + modes(ctx)
    # import c14_run
    # n += c14_run.run(ctx)
    ctx.assumptions += ["Refusing an explicit asymmetric padding is allowed: burn has operators that cannot express it."]
    return "model_checking", n

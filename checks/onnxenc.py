"""A small ONNX protobuf encoder, independent of the code under test."""
import struct

DT = dict(F32=1, U8=2, I8=3, U16=4, I16=5, I32=6, I64=7, STR=8, Bool=9, F16=10, F64=11, U32=12, U64=13, C64=14, C128=15, BF16=16, F8=17)


def varint(n):
    n &= (1 << 64) - 1
    out = bytearray()
    while True:
        b = n & 0x7F
        n >>= 7
        out.append(b | (0x80 if n else 0))
        if not n:
            return bytes(out)


def key(f, w):
    return varint((f << 3) | w)


def vi(f, n):
    return key(f, 0) + varint(n)


def ld(f, b):
    if isinstance(b, str):
        b = b.encode("utf-8", "surrogateescape")
    return key(f, 2) + varint(len(b)) + b


def f32(f, x):
    return key(f, 5) + struct.pack("<f", x)


PACK = dict(F32="<f", F64="<d", I8="<b", U8="<B", I16="<h", U16="<H", I32="<i", U32="<I", I64="<q", U64="<Q", Bool="<B", F16="<e")


def elem_bytes(dt, x):
    """x: a number, or an int bit pattern given as ('bits', n)."""
    if isinstance(x, tuple) or isinstance(x, list) and x and x[0] == "bits":
        size = {"F32": 4, "F64": 8, "F16": 2, "BF16": 2, "I8": 1, "U8": 1, "I16": 2, "U16": 2, "I32": 4, "U32": 4, "I64": 8, "U64": 8, "Bool": 1}[dt]
        return int(x[1]).to_bytes(size, "little")
    if dt == "BF16":
        b = struct.unpack("<I", struct.pack("<f", x))[0]
        # round to nearest even
        b = (b + 0x7FFF + ((b >> 16) & 1)) >> 16 if x == x else 0x7FC0
        return b.to_bytes(2, "little")
    if dt in ("F32", "F64", "F16"):
        try:
            return struct.pack(PACK[dt], float(x))
        except OverflowError:
            return struct.pack(PACK[dt], float("inf") if x > 0 else float("-inf"))
    return struct.pack(PACK[dt], int(x))


def raw(dt, data):
    return b"".join(elem_bytes(dt, x) for x in data)


def tensor(name, dt, shape, data=None, enc="raw", external=None, blob=None, extra=b"", packed=True):
    """enc: raw | typed (the repeated field of the type) | external."""
    out = b"".join(vi(1, d) for d in shape) + vi(2, DT[dt] if isinstance(dt, str) else dt)
    if enc == "external":
        for k, v in external:
            out += ld(13, ld(1, k) + ld(2, v))
        out += vi(14, 1)
    elif enc == "raw":
        out += ld(9, blob if blob is not None else raw(dt, data))
    elif enc == "typed":
        def rep(field, items, wt):
            if packed:
                return ld(field, b"".join(items)) if items else b""
            return b"".join(key(field, wt) + i for i in items)
        if dt == "F32":
            out += rep(4, [elem_bytes(dt, x) for x in data], 5)
        elif dt == "F64":
            out += rep(10, [elem_bytes(dt, x) for x in data], 1)
        elif dt == "I64":
            out += rep(7, [varint(int.from_bytes(elem_bytes(dt, x), "little")) for x in data], 0)
        elif dt in ("U64", "U32"):
            out += rep(11, [varint(int.from_bytes(elem_bytes(dt, x), "little")) for x in data], 0)
        elif dt in ("F16", "BF16"):
            out += rep(5, [varint(int.from_bytes(elem_bytes(dt, x), "little")) for x in data], 0)
        else:
            out += rep(5, [varint(int.from_bytes(elem_bytes(dt, x), "little", signed=dt.startswith("I"))) for x in data], 0)
    elif enc != "none":
        raise ValueError(enc)
    return out + ld(8, name) + extra


def value_info(name, dt, shape, typed=True):
    """shape: list of ints, strings (symbolic) or None (unknown); None for unknown rank."""
    if not typed:
        return ld(1, name)
    t = vi(1, DT[dt] if isinstance(dt, str) else dt)
    if shape is not None:
        s = b""
        for d in shape:
            if d is None:
                s += ld(1, b"")
            elif isinstance(d, str):
                s += ld(1, ld(2, d))
            else:
                s += ld(1, vi(1, d))
        t += ld(2, s)
    return ld(1, name) + ld(2, ld(1, t))


def attr(name, ty, v):
    o = ld(1, name)
    if ty == "f":
        return o + f32(2, v) + vi(20, 1)
    if ty == "i":
        return o + vi(3, v) + vi(20, 2)
    if ty == "s":
        return o + ld(4, v) + vi(20, 3)
    if ty == "t":
        return o + ld(5, tensor_of(v)) + vi(20, 4)
    if ty == "g":
        return o + ld(6, graph(v)) + vi(20, 5)
    if ty == "floats":
        return o + b"".join(f32(7, x) for x in v) + vi(20, 6)
    if ty == "ints":
        return o + b"".join(vi(8, x) for x in v) + vi(20, 7)
    if ty == "strings":
        return o + b"".join(ld(9, x) for x in v) + vi(20, 8)
    raise ValueError(ty)


def tensor_of(t):
    return tensor(t.get("name", ""), t["dtype"], t["shape"], t.get("data"), t.get("enc", "raw"), t.get("external"), t.get("blob"))


def node(n):
    o = b"".join(ld(1, i) for i in n["in"]) + b"".join(ld(2, x) for x in n["out"])
    o += ld(3, n.get("name", "")) + ld(4, n["op"])
    o += b"".join(ld(5, attr(a["name"], a["type"], a["v"])) for a in n.get("attrs", []))
    if n.get("doc"):
        o += ld(6, n["doc"])
    if n.get("domain"):
        o += ld(7, n["domain"])
    return o


def graph(g):
    o = b"".join(ld(1, node(n)) for n in g["nodes"])
    o += ld(2, g["name"]) if "name" in g else ld(2, "g")
    o += b"".join(ld(5, tensor_of(t)) for t in g.get("inits", []))
    o += b"".join(ld(11, value_info(v["name"], v["dtype"], v.get("shape"), v.get("typed", True))) for v in g.get("inputs", []))
    o += b"".join(ld(12, value_info(v["name"], v["dtype"], v.get("shape"), v.get("typed", True))) for v in g.get("outputs", []))
    o += b"".join(ld(13, value_info(v["name"], v["dtype"], v.get("shape"))) for v in g.get("infos", []))
    return o


def model(m):
    """m: graph fields plus opset (int, or list of [domain, version]) and ir_version."""
    o = vi(1, m.get("ir_version", 9)) + ld(2, m.get("producer", "spec"))
    o += ld(7, graph(m))
    ops = m.get("opset", 18)
    for d, v in [["", ops]] if isinstance(ops, int) else ops:
        o += ld(8, (ld(1, d) if d else b"") + vi(2, v))
    return o

"""Families of models of the specification (Cases.tla), emitted by TLC in parallel, and what the code makes of them."""
import concurrent.futures as cf
import os
import e2e
from core import NCPU, VERIF, ToolError

GROUPS = ["rnn", "reduce", "move", "autopad", "misc", "arith2", "conv", "norm", "index", "unary", "compare", "pad", "pool", "shape", "variadic",
          "binary", "matmul", "where"]


def one_op_cases(ctx, groups=GROUPS, modes=None, share=(0, 1)):
    """The one-operator models of the families, with the outputs the specification computes for them."""
    allm = "TRUE" if (ctx.thorough if modes is None else modes) else "FALSE"

    def one(g):
        e = ctx.tlc("Cases", {"Families": '{"%s"}' % g, "AllModes": allm, "Share": share[0], "Of": share[1]}, invariants=["Emit"], tag=f"cases-{g}",
                    workers=2, heap="3g")
        if e.error:
            raise ToolError(f"Cases {g}: {e.error}")
        return list(e)
    with cf.ThreadPoolExecutor(NCPU // 2 + 1) as ex:
        got = dict(zip(groups, ex.map(one, groups)))
    ctx.log(f"TLC evaluated {sum(map(len, got.values()))} models")
    return [c for g in groups for c in got[g]]


def unsupported():
    """Forms the tree refuses to import; a committed list, written by hand-run tools only."""
    with open(f"{VERIF}/checks/unsupported.txt") as fh:
        return {line.rstrip("\n") for line in fh if line.strip() and not line.startswith("#")}


THEMES = ["mixed", "fold", "multi", "cse", "shape", "dynshape", "linear", "ident", "identint", "idem"]


def programs(ctx, themes=THEMES, depth=None, first=60, breadth=None):
    """Models of several nodes, built node by node by the specification (Programs.tla)."""
    depth = depth or (4 if ctx.thorough else 3)
    breadth = breadth or (3 if ctx.thorough else 4)

    def one(t):
        e = ctx.tlc("Programs", {"Theme": f'"{t}"', "Depth": depth, "MinDepth": 1, "First": first, "Breadth": breadth},
                    invariants=["Emit", "WellFormed"], tag=f"programs-{t}", workers=2, heap="3g")
        if e.error:
            raise ToolError(f"Programs {t}: {e.error}")
        return list(e)
    with cf.ThreadPoolExecutor(NCPU // 2 + 1) as ex:
        got = dict(zip(themes, ex.map(one, themes)))
    out, seen = [], set()
    for t in themes:
        for c in got[t]:
            c["id"] = f"program-{t}/{len(out)}"
            k = key(c)
            if k not in seen:
                seen.add(k)
                out.append(c)
    ctx.log(f"TLC built {len(out)} programs")
    return out


PATTERNS = ["permute", "constshape", "linear", "attention", "chain"]


def patterns(ctx, names=PATTERNS, of=1):
    """Models around the graph patterns the importer rewrites (Patterns.tla)."""
    def one(p):
        e = ctx.tlc("Patterns", {"Pattern": f'"{p}"', "Keep": 0, "Of": of}, invariants=["Emit"], tag=f"patterns-{p}", workers=2, heap="3g")
        if e.error:
            raise ToolError(f"Patterns {p}: {e.error}")
        return list(e)
    with cf.ThreadPoolExecutor(NCPU // 2 + 1) as ex:
        got = dict(zip(names, ex.map(one, names)))
    out = []
    for p in names:
        for c in got[p]:
            c["id"] = f"program-{p}/{len(out)}"
            out.append(c)
    ctx.log(f"TLC built {len(out)} patterns")
    return out


CONTROL = ["if", "nestif", "loop", "scan", "mixed", "shadow"]


def control(ctx, names=CONTROL):
    """Models with If, Loop and Scan (Control.tla)."""
    def one(f):
        e = ctx.tlc("Control", {"Family": f'"{f}"', "AllModes": "TRUE" if ctx.thorough else "FALSE"}, invariants=["Emit"], tag=f"control-{f}", workers=2, heap="3g")
        if e.error:
            raise ToolError(f"Control {f}: {e.error}")
        return list(e)
    with cf.ThreadPoolExecutor(NCPU // 2 + 1) as ex:
        got = dict(zip(names, ex.map(one, names)))
    out = []
    for f in names:
        for c in got[f]:
            c["id"] = f"program-{f}/{len(out)}"
            out.append(c)
    ctx.log(f"TLC built {len(out)} models with control flow")
    return out


def key(c):
    """What identifies a model in findings."""
    return "program " + e2e.program(c) if c["id"].startswith("program") else e2e.describe(c)


def all_cases(ctx):
    return one_op_cases(ctx) + programs(ctx) + patterns(ctx) + control(ctx)

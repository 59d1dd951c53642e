"""C24: switching on logging never hides a failure."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from core import NCPU, TARGET, ToolError


def observe(out, err, hist):
    """Per event, what was seen: the lines of both streams between the event marks."""
    res = []
    so, se = re.split(r"(?m)^@@ \d+ .*\n", out)[1:], re.split(r"(?m)^@@ \d+ .*\n", err)[1:]
    for k, e in enumerate(hist):
        seen, text = [], re.sub(r"\x1b\[[0-9;]*m", "", so[k] if k < len(so) else "")
        for m in re.finditer(r"(?m)^= (init ok|init err|race \d+|hook \d+|foreign \w+)(.*)$|PANIC => (.*(?:\n(?!= |.*PANIC).*)?)|dbg(\d+)", text):
            if m[1]:
                seen.append(m[1])
                if m[1].startswith("hook") and e != "apanic" and f"boom{k}" not in m[2]:
                    seen.append("wrong message")
            elif m[3]:
                seen.append("log")
                if e != "apanic" and f"boom{k}" not in m[3]:
                    seen.append("wrong message")
            else:
                seen.append("debug" if m[4] == str(k) else "wrong message")
        if k < len(se):
            n = len(re.findall(r"(?m)panicked at", se[k]))
            # the log goes to one of the two streams
            logs = len(re.findall(r"PANIC =>", se[k]))
            seen += ["log"] * logs + ["stderr"] * (n - logs)
        if "panic" in e and "= caught true" not in text:
            seen.append("the panic did not unwind")
        res.append(seen)
    return res


def run(ctx):
    q = not ctx.thorough
    ctx.build_driver()
    n = 0
    plans = [(4 if q else 5, ["init", "new", "hook", "chain", "panic", "tpanic", "foreign"], [{}]),
             (3 if q else 4, ["init", "race", "apanic", "flog", "debug", "reset", "panic", "hook"], [{}, {"RUST_LOG": "off"}, {"RUST_LOG": "error", "NO_COLOR": "1"}]),
             (6 if q else 8, ["init", "panic", "chain"], [{}])]
    for k, (most, events, envs) in enumerate(plans):
        em = ctx.tlc("Logger", {"MaxLen": most, "Events": "{" + ", ".join(f'"{e}"' for e in events) + "}"}, invariants=["OneLog", "NotHidden", "OnlyFirst"], tag=f"Logger{k}")
        if em.error:
            raise ToolError("the specification itself is wrong: " + em.error)
        jobs = [(e, v) for e in em for v in envs]

        def one(job):
            e, v = job
            arg = ",".join(f"{x}:{i}" for i, x in enumerate(e["hist"]))
            env = {a: b for a, b in os.environ.items() if a not in ("RUST_LOG", "NO_COLOR")}
            env.update(v, RUST_BACKTRACE="0")
            try:
                p = subprocess.run([f"{TARGET}/debug/harness", "log", arg], capture_output=True, text=True, timeout=60, env=env, errors="replace", cwd=ctx.dir)
            except subprocess.TimeoutExpired:
                return job, ["does not end"], "", ""
            return job, observe(p.stdout, p.stderr, e["hist"]) if p.returncode == 0 else [f"exit {p.returncode}"], p.stdout, p.stderr

        with ThreadPoolExecutor(NCPU * 2) as ex:
            for (e, v), got, out, err in ex.map(one, jobs):
                n += 1
                want = []
                for i, o in enumerate(e["obs"]):
                    want.append([re.sub(r"hook (\d+)", lambda m: f"hook {int(m[1]) - 1}", x) for x in o])
                ctx.count("histories" + (" with " + str(sorted(v)) if v else ""))
                # which stream came first is not observable: compare as multisets, but hooks in order
                ok = len(want) == len(got) and all(sorted(a) == sorted(b) and [x for x in a if x.startswith("hook")] == [x for x in b if x.startswith("hook")]
                                                   for a, b in zip(want, got))
                if not ok:
                    ctx.violation(",".join(e["hist"]), {"history": e["hist"], "env": v, "expected": want, "got": got, "stdout": out[-3000:], "stderr": err[-2000:]})
        ctx.sample({"history": em[len(em) // 2]["hist"], "expected": em[len(em) // 2]["obs"]})
    ctx.cov["exhaustive"] = True
    return "model_checking", n

"""Shared machinery of the checks: building the driver, running TLC, reporting."""
import json, os, re, shutil, subprocess, sys, time, hashlib, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = f"{VERIF}/build"
TARGET = f"{BUILD}/target"
SPEC = f"{VERIF}/spec"
TLA = "/opt/veriftools/tla"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


def sh_env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.dir = f"{BUILD}/run/{prop}-{tier}"
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.violations = []  # (key, detail)
        self.tlc_runs = []
        self.cov = {}
        self.counters = {}
        self.assumptions = []
        self.samples = []
        self.known = load_known(prop)
        self.known_hit = {}
        self.lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, k, n=1):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + n

    def violation(self, key, detail):
        """key identifies the failing input, call site or history; detail is the replay record."""
        with self.lock:
            for k, f in enumerate(self.known):
                if key in f["case"] or any(p.fullmatch(key) for p in f["like"]):
                    self.known_hit.setdefault(k, []).append(key)
                    return
            self.violations.append((key, detail))

    def sample(self, case, most=3):
        with self.lock:
            if len(self.samples) < most:
                self.samples.append(case)

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    # --- TLC
    def tlc(self, module, constants=None, init="Init", next_="Next", invariants=(), properties=(), constraint=None,
            post=None, deadlock=False, simulate=None, depth=None, workers=NCPU, tag=None, timeout=800, heap="6g", spec=None,
            symmetry=None, coverage=False, defs=None):
        """Runs TLC on spec/<module>.tla; returns the JSON values it emitted. Raises ToolError unless TLC
        finished without any error; a reported invariant violation is returned in .error."""
        tag = tag or module
        d = f"{self.dir}/tlc-{tag}"
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                if not os.path.exists(f"{d}/{f}"):
                    os.symlink(f"{SPEC}/{f}", f"{d}/{f}")
        cfg = [f"SPECIFICATION {spec}"] if spec else [f"INIT {init}", f"NEXT {next_}"]
        for k, v in (constants or {}).items():
            cfg.append(f"CONSTANT {k} = {v}")
        for k, v in (defs or {}).items():
            cfg.append(f"CONSTANT {k} <- {v}")
        cfg += [f"INVARIANT {i}" for i in invariants] + [f"PROPERTY {i}" for i in properties]
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if post:
            cfg.append(f"POSTCONDITION {post}")
        cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        with open(f"{d}/{tag}.cfg", "w") as fh:
            fh.write("\n".join(cfg) + "\n")
        cmd = ["java", f"-Xmx{heap}", "-Xss32m", "-XX:+UseParallelGC", "-cp", f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar",
               "tlc2.TLC", "-config", f"{tag}.cfg", "-workers", str(workers), "-metadir", f"{d}/meta", "-noGenerateSpecTE",
               "-fp", "1", "-seed", str(self.seed)]
        if simulate:
            cmd += ["-simulate", f"num={simulate}"]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd.append(f"{module}.tla")
        t = time.time()
        emitted, text, states, err = [], [], None, None
        e = dict(os.environ)
        e["JAVA_TOOL_OPTIONS"] = f"-Djava.io.tmpdir={d}"
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, errors="replace")
        killer = threading.Timer(timeout, p.kill)
        killer.start()
        for line in p.stdout:
            if line.startswith('"@@'):
                emitted.append(json.loads(json.loads(line)[2:]))
            else:
                text.append(line)
        p.wait()
        killer.cancel()
        if workers != 1:
            emitted.sort(key=lambda x: json.dumps(x, sort_keys=True))  # several workers report in any order
        out = "".join(text)
        with open(f"{d}/{tag}.out", "w") as fh:
            fh.write(out)
        shutil.rmtree(f"{d}/meta", ignore_errors=True)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, distinct = (int(m[1]), int(m[2])) if m else (0, 0)
        if simulate and not m:
            m = re.search(r"The number of states generated: (\d+)", out)
            gen = distinct = int(m[1]) if m else 0
        rec = {"module": module, "tag": tag, "states": distinct, "transitions": gen, "seconds": round(time.time() - t, 1),
               "emitted": len(emitted), "mode": "simulate" if simulate else "bfs", "constants": {k: str(v) for k, v in (constants or {}).items()}}
        self.tlc_runs.append(rec)
        if p.returncode != 0:
            inv = re.search(r"Error: (Invariant \S+ is violated|.*POSTCONDITION.*|Action property.*violated|Deadlock reached|Temporal properties were violated|The postcondition.*)", out)
            if inv is None or p.returncode not in (10, 11, 12, 13):
                raise ToolError(f"TLC failed on {tag} (rc {p.returncode}):\n" + out[-3000:])
            rec["error"] = inv[1]
            return Emitted(emitted, inv[1], out)
        return Emitted(emitted, None, out)

    # --- the driver
    def build_driver(self, crate="harness", bins=None):
        t = time.time()
        r = subprocess.run(["cargo", "build", "--offline", "-q", "--message-format=json-render-diagnostics"], cwd=f"{VERIF}/{crate}",
                           env=sh_env(), capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError(f"{crate} does not build against /repo:\n" + r.stderr[-4000:])
        self.libs = {}
        for line in r.stdout.split("\n"):
            if line.startswith('{"reason":"compiler-artifact"'):
                a = json.loads(line)
                for f in a["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        self.libs[a["target"]["name"].replace("-", "_")] = f
        self.log(f"driver {crate} built in {time.time() - t:.1f}s")

    def drive(self, reqs, procs=NCPU, timeout=600, cwd=None):
        """Puts the requests through driver processes; answers in request order. A driver process that dies
        (abort, stack overflow, endless loop) gives {'res': 'abort'} for the request it was working on."""
        reqs = list(reqs)
        for k, r in enumerate(reqs):
            r["id"] = k
        res = [None] * len(reqs)
        chunks = [list(range(i, len(reqs), procs)) for i in range(procs)]
        errs = []

        def work(ids):
            try:
                path = f"{self.dir}/answers-{threading.get_ident()}"
                while ids:
                    if os.path.exists(path):
                        os.remove(path)
                    p = subprocess.Popen([f"{TARGET}/debug/harness"], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                         stderr=subprocess.DEVNULL, cwd=cwd or self.dir, env=dict(os.environ, HARNESS_OUT=path))
                    data = "\n".join(json.dumps(reqs[i]) for i in ids) + "\n"
                    try:
                        p.communicate(data.encode(), timeout=timeout)
                        why = f"the process ended with {p.returncode}"
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.communicate()
                        why = "does not end"
                    if os.path.exists(path):
                        with open(path, "rb") as fh:
                            for line in fh:
                                try:
                                    o = json.loads(line)
                                except ValueError:
                                    continue
                                res[o["id"]] = o
                    ids = [i for i in ids if res[i] is None]
                    if ids:
                        # answers are written as they come: the first one missing is the culprit
                        res[ids[0]] = {"res": "abort", "msg": why}
                        ids = ids[1:]
            except Exception as e:
                errs.append(e)

        ts = [threading.Thread(target=work, args=(c,)) for c in chunks if c]
        [t.start() for t in ts]
        [t.join() for t in ts]
        if errs:
            raise ToolError(f"driver: {errs[0]!r}")
        return res

    # --- report
    def finish(self, level, samples):
        wall = round(time.time() - self.t0, 1)
        rep = f"{BUILD}/replay/{self.prop}"
        shutil.rmtree(rep, ignore_errors=True)
        mc = {"states": sum(r["states"] for r in self.tlc_runs), "transitions": sum(r["transitions"] for r in self.tlc_runs),
              "traces_validated_against_impl": samples}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "wall_s": wall,
              "coverage": dict(mc, samples=self.samples, tlc_runs=self.tlc_runs, counters=dict(sorted(self.counters.items())), **self.cov),
              "assumptions": self.assumptions,
              "violations": len(self.violations)}
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as fh:
            json.dump(ev, fh, indent=1)
        for k, f in enumerate(self.known):
            if k in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {f['what']} ({len(self.known_hit[k])} cases)")
        if os.environ.get("VERIF_DUMP"):
            # for development only: what was reported, to sort into the list of known findings by hand
            with open(os.environ["VERIF_DUMP"], "w") as fh:
                json.dump([[k, str(d)[:400]] for k, d in self.violations] + [[k, "known"] for l in self.known_hit.values() for k in l], fh)
        if samples == 0:
            raise ToolError("nothing was validated")
        if self.violations:
            os.makedirs(rep)
            for n, (k, d) in enumerate(self.violations[:50]):
                with open(f"{rep}/{n}.json", "w") as fh:
                    json.dump({"property": self.prop, "key": k, "detail": d}, fh, indent=1, default=str)
            for n, (k, d) in enumerate(self.violations[:10]):
                print(f"VIOLATION property={self.prop} replay={rep}/{n}.json")
                print("   ", k[:300])
            print(f"{len(self.violations)} violations")
            return 1
        self.log(f"{self.prop} held: {samples} behaviours of the specification compared with the code, "
                 f"{mc['states']} states, counters {self.counters}")
        return 0


class Emitted(list):
    def __init__(self, items, error, out):
        super().__init__(items)
        self.error, self.out = error, out


def load_known(prop):
    """[(what, pattern or None, exact keys)] of the findings that concern prop. The file has a line
    'finding: property=A,B key=<regular expression, \\s for a blank> <what>' or 'finding: property=A,B id=<name> <what>'
    followed by lines '  case: <key>' (exact keys) or '  like: <regular expression>'."""
    out, cur = [], None
    path = f"{VERIF}/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) (key|id)=(\S+) (.*)", line)
            if m:
                cur = None
                if prop in m[1].split(","):
                    cur = {"what": m[4].strip(), "like": [], "case": set()}
                    if m[2] == "key":
                        cur["like"].append(re.compile(m[3].replace("\\s", " "), re.S))
                    out.append(cur)
            elif cur is not None and line.startswith("  case: "):
                cur["case"].add(line[8:].rstrip("\n"))
            elif cur is not None and line.startswith("  like: "):
                cur["like"].append(re.compile(line[8:].rstrip("\n"), re.S))
            elif not line.startswith("  "):
                cur = None
    return out


def h(*a):
    return hashlib.sha256("|".join(map(str, a)).encode()).hexdigest()[:10]

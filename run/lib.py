"""Building the harness, driving the real code, running TLC, reporting."""
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
VH = os.path.join(TARGET, "debug", "vh")
TLA = "/opt/veriftools/tla"
REPO = "/repo"
CORES = os.cpu_count() or 4


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/typst/bin:" + e.get("PATH", "")
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


def build(what="harness"):
    d = os.path.join(VERIF, what)
    lock = os.path.join(d, "Cargo.lock")
    p = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=d, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
    if p.returncode != 0:
        raise ToolError("the harness does not build:\n" + p.stdout[-4000:])


def write_json(path, x):
    with open(path, "w") as f:
        json.dump(x, f, ensure_ascii=False)


def write_ndjson(path, xs):
    with open(path, "w") as f:
        for x in xs:
            f.write(json.dumps(x, ensure_ascii=False))
            f.write("\n")


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


class Harness:
    """Runs jobs on the real code; a job that hangs or kills the process
    yields a result with `hang` or `crash`."""

    def __init__(self, work, specs, limit_ms=10000):
        self.work, self.limit = work, limit_ms
        self.args = []
        for name, js in specs.items():
            p = os.path.join(work, f"spec-{name}.json")
            write_json(p, js)
            self.args.append(f"{name}={p}")
        self.n = 0

    def run(self, jobs, procs=CORES, max_bad=6):
        """jobs: list of dicts without ids; returns the results in order."""
        if not jobs:
            return []
        for i, j in enumerate(jobs):
            j["id"] = i
        procs = max(1, min(procs, len(jobs) // 50 + 1))
        size = -(-len(jobs) // procs)
        chunks = [jobs[i:i + size] for i in range(0, len(jobs), size)]
        self.n += 1
        running, results = [], {}
        for k, c in enumerate(chunks):
            base = os.path.join(self.work, f"jobs-{self.n}-{k}")
            write_ndjson(base + ".in", c)
            if os.path.exists(base + ".out"):
                os.unlink(base + ".out")
            open(base + ".out", "w").close()
            running.append([base, c, 0, self._spawn(base, 0), 0])
        bad = 0
        for r in running:
            base, c, skip, p, _ = r
            while True:
                try:
                    rc = p.wait(timeout=600)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc = -9
                with open(base + ".out", "rb") as f:
                    data = f.read()
                lines = data.split(b"\n")
                tail = lines.pop()
                done = [json.loads(l) for l in lines if l]
                if rc == 0 and len(done) == len(c):
                    break
                if len(done) >= len(c) and rc != 0:
                    if done[-1].get("hang"):
                        break
                # the job after the last finished one took the process down,
                # or the last line reports a hang
                with open(base + ".out", "wb") as f:
                    f.write(b"\n".join(l for l in lines if l))
                    if any(lines):
                        f.write(b"\n")
                    if not (done and done[-1].get("hang") and rc == 3):
                        f.write(json.dumps({"id": c[len(done)]["id"], "crash": rc}).encode() + b"\n")
                        done.append({"id": c[len(done)]["id"], "crash": rc})
                bad += 1
                if len(done) >= len(c):
                    break
                if bad >= max_bad:
                    # enough evidence; the rest of this chunk is not run
                    done += [{"id": j["id"], "skipped": True} for j in c[len(done):]]
                    break
                p = self._spawn(base, len(done))
            for d in done:
                results[d["id"]] = d
        return [results[j["id"]] for j in jobs]

    def _spawn(self, base, skip):
        e = env()
        e["VH_SKIP"] = str(skip)
        e["VH_LIMIT_MS"] = str(self.limit)

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        return subprocess.Popen([VH, "run", base + ".in", base + ".out"] + self.args, env=e,
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits)


class TlcResult:
    pass


def tlc(work, name, module, cfg, environ, timeout, workers=CORES, heap="6g", extra=()):
    """Runs TLC; returns counts, the printed records and a violated invariant."""
    d = os.path.join(work, "tlc-" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cfgp = os.path.join(d, name + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = env()
    for k, v in environ.items():
        e[k] = v
    out = os.path.join(d, "out.txt")
    cmd = ["java", "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8", "-Xss512m", "-Xmx" + heap,
           # states stay in memory: on disk TLC truncates the characters of strings
           "-Dtlc2.tool.queue.DiskStateQueue.BufSize=4194304", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % min(8, workers),
           "-cp", TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", cfgp,
           "-noGenerateSpecTE", *extra, module + ".tla"]
    t0 = time.time()
    with open(out, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC {name}: no answer in {timeout} s")
    r = TlcResult()
    r.wall = time.time() - t0
    r.recs, r.states, r.distinct, r.depth, r.violated, other = [], 0, 0, 0, None, []
    with open(out) as f:
        for line in f:
            if line.startswith('"@@'):
                r.recs.append(json.loads(json.loads(line)[2:]))
                continue
            if line.startswith(("Semantic", "Parsing", "Linting")):
                continue
            other.append(line)
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                r.states, r.distinct = int(m[1]), int(m[2])
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                r.depth = int(m[1])
            m = re.match(r"Error: Invariant (\w+) is violated", line)
            if m:
                r.violated = m[1]
            m = re.match(r"Error: (?:Action|Temporal) propert\w* ?(\w*) ?(?:is|were|line)", line)
            if m:
                r.violated = m[1] or "property"
    r.text = "".join(other)
    r.ok = ("No error has been found" in r.text or "-simulate" in extra and "Finished in" in r.text and "Error" not in r.text) and rc == 0
    if not r.ok and r.violated is None:
        raise ToolError(f"TLC {name} failed (exit {rc}):\n" + r.text[-3000:])
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return r


class Check:
    """One run of one property's check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "work", f"{prop}-{tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(VERIF, "work", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples, self.parts, self.assumptions = [], [], []
        self.violations = []
        self.known = [k for k in load_known() if k["property"] == prop and k["state"] == "open"]
        self.known_seen = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def count_tlc(self, name, r):
        self.states += r.distinct
        self.transitions += r.states
        self.parts.append({"run": name, "distinct_states": r.distinct, "states_generated": r.states,
                           "depth": r.depth, "wall_s": round(r.wall, 1)})

    def sample(self, x, n=8):
        if len(self.samples) < n:
            self.samples.append(x)

    def violation(self, what, data):
        for k in self.known:
            if k["match"] and k["match"] in json.dumps([what, data], ensure_ascii=False):
                if k not in self.known_seen:
                    self.known_seen.append(k)
                return
        n = len(self.violations)
        path = os.path.join(self.replays, f"{self.prop}-{n}.json")
        if n < int(os.environ.get("VN", 20)):
            write_json(path, {"property": self.prop, "what": what, "data": data,
                              "seed": self.seed, "tier": self.tier})
        self.violations.append((what, path))

    def finish(self, level="model_checking", extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"], "runs": self.parts}
        cov.update(extra or {})
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        write_json(os.path.join(VERIF, "evidence", self.prop + ".json"),
                   {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
                    "coverage": cov, "assumptions": self.assumptions,
                    "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)})
        for k in self.known_seen:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        print(f"{self.prop} {self.tier}: {self.distinct()} ; {len(self.violations)} violations ; "
              f"{time.time() - self.t0:.1f} s")
        for what, path in self.violations[:int(os.environ.get("VN", 5))]:
            print(f"VIOLATION property={self.prop} replay={path}")
            print("   " + what[: 300 if "VN" not in os.environ else 5000].replace("\n", "\\n"))
        return 1 if self.violations else 0

    def distinct(self):
        return f"{self.states} states, {self.traces} runs of the real code compared"


def load_known():
    """known_findings.txt: `open: property=<id> match=<text> :: <what>` and
    `fixed: property=<id> <commit> <what>` (a fixed entry suppresses nothing)."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return res
    for line in open(p):
        m = re.match(r"open: property=(\S+) match=(.*?) :: (.*)", line)
        if m:
            res.append({"state": "open", "property": m[1], "match": m[2], "what": m[3].strip()})
    return res

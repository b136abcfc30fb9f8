"""Running TLC, the harness and the trace checks; evidence, replays and exit codes."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOENV = dict(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GONOSUMDB="*")


class CheckError(Exception):
    """The machinery failed: no verdict."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print("#", *a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        os.environ["TMPDIR"] = self.dir      # what children leave behind goes with it
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, steps_validated=0, trace_states=0,
                        model_edges=0, model_edges_replayed=0, crashed_traces=0, operations={}, parts=[], samples=[])
        self.rng = random.Random(seed)
        self.vh = None
        self.n = 0
        self.scripts = []
        self.limit = 780

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, "%03d-%s" % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- the code under test
    def build(self):
        if self.vh:
            return self.vh
        src = os.path.join(self.dir, "harness")
        shutil.copytree(os.path.join(VERIF, "harness"), src)
        out = os.path.join(self.dir, "vh")
        env = dict(os.environ, **GOENV)
        self.hooks = True
        r = subprocess.run(["go", "build", "-tags", "verif", "-o", out, "."], cwd=src, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            log("tagged build failed:", r.stderr[-2000:])
            self.hooks = False
            r = subprocess.run(["go", "build", "-o", out, "."], cwd=src, env=env, capture_output=True, text=True)
            if r.returncode != 0:
                raise CheckError("harness does not build: " + r.stderr[-3000:])
        self.vh = out
        return out

    def harness(self, *args, timeout=600, **kw):
        r = subprocess.run([self.build(), *map(str, args)], capture_output=True, text=True, timeout=timeout, cwd=self.dir, **kw)
        if r.returncode != 0:
            raise CheckError("harness %s: %s %s" % (args[0], r.stdout[-500:], r.stderr[-2000:]))
        return r.stdout

    # -- TLC
    def tlc(self, module, cfg, workers=4, env=None, timeout=850, heap="3g", extra=()):
        """Runs TLC in a scratch copy of spec/. Returns (returncode, output)."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in os.listdir(SPEC):
            if f.endswith(".tla") or f.endswith(".cfg"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "Run.cfg"), "w") as f:
            f.write(cfg)
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as o:
            try:
                r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
                                    "-metadir", os.path.join(d, "states"), *extra, "-config", "Run.cfg", module + ".tla"],
                                   cwd=d, env=dict(os.environ, **(env or {})), stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC timed out on " + module)
        return r.returncode, outp

    def model_check(self, name, module="MC", workers=4):
        """Exhaustively checks a bounded instance; returns the file with the printed edges."""
        cfg = open(os.path.join(SPEC, name + ".cfg")).read()
        t = time.time()
        rc, outp = self.tlc(module, cfg, workers=workers, heap="6g")
        distinct = gen = None
        tail = []
        with open(outp) as f:
            for line in f:
                if "EDGE " in line:
                    continue
                tail.append(line)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", line)
                if m:
                    gen, distinct, left = map(int, m.groups())
        if rc != 0 or distinct is None or left != 0:
            raise CheckError("model %s: TLC exit %d: %s" % (name, rc, "".join(tail[-40:])))
        self.cov["states"] += distinct
        self.cov["transitions"] += gen
        self.cov["parts"].append("model %s: %d distinct states, %d transitions generated, all properties hold (%.1f s)" % (name, distinct, gen, time.time() - t))
        return outp

    def model_fails(self, name, module):
        """A variant of a model that must violate the property (so that the property is not vacuous)."""
        rc, outp = self.tlc(module, open(os.path.join(SPEC, name + ".cfg")).read(), workers=1)
        if rc == 0 or "is violated" not in open(outp).read():
            raise CheckError("model %s was to fail" % name)
        self.cov["parts"].append("model %s violates the property, as it should" % name)

    # -- recorded traces
    def run_scripts(self, scripts, workers=8, timeout=600):
        out = self.path("traces.ndjson")
        r = json.loads(self.harness("run", "-in", scripts, "-out", out, "-workers", workers, timeout=timeout))
        self.cov["crashed_traces"] += r["crashed"]
        if r["done"] == 0:
            raise CheckError("no trace was recorded")
        return out

    def check_traces(self, traces, invs, module="Trace", cfg_extra="", label="", chunks=6, to_replay=None):
        """Validates every trace of the file with TLC; records the first violation."""
        with open(traces) as f:
            lines = [l for l in f if l.strip()]
        if not lines:
            raise CheckError("no traces")
        order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
        k = max(1, min(chunks, len(lines), sum(map(len, lines)) // 300000 + 1))
        buckets = [[] for _ in range(k)]
        for j, i in enumerate(order):
            buckets[j % k].append(i)
        cfg = "SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n%s" % (" ".join(invs), cfg_extra)

        def one(bucket):
            p = self.path("chunk.ndjson")
            with open(p, "w") as f:
                f.writelines(lines[i] for i in bucket)
            rc, outp = self.tlc(module, cfg, workers=2 if k > 1 else 4, env={"TRACES": p}, heap="3g")
            txt = open(outp).read()
            os.unlink(p)
            m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", txt)
            if rc == 0 and m and "No error has been found" in txt:
                return (int(m.group(2)), None)
            inv = re.search(r"Invariant (\w+) is violated", txt)
            if inv:
                tr = re.findall(r"/\\ tr = (\d+)", txt)
                st = re.findall(r"/\\ l = (\d+)", txt)
                return (int(m.group(2)) if m else 0, (inv.group(1), bucket[int(tr[-1]) - 1], int(st[-1])))
            raise CheckError("TLC exit %d on traces: %s" % (rc, re.sub(r"\n+", "\n", txt)[-3000:]))

        with cf.ThreadPoolExecutor(4) as ex:
            results = list(ex.map(one, buckets))
        steps = 0
        for l in lines:
            t = json.loads(l)
            steps += len(t["s"])
            for s in t["s"]:
                key = s["e"] if s["e"] not in ("cmd", "api") else s["e"] + ":" + s["c"]["k"]
                self.cov["operations"][key] = self.cov["operations"].get(key, 0) + 1
        self.cov["traces_validated_against_impl"] += len(lines)
        self.cov["steps_validated"] += steps
        self.cov["trace_states"] += sum(r[0] for r in results)
        self.cov["invariants"] = sorted(set(self.cov.get("invariants", []) + invs))
        for l in lines[:4]:
            self.sample(l, json.loads(l)["t"])
        bad = [r[1] for r in results if r[1]]
        if bad:
            inv, i, step = min(bad, key=lambda b: (b[2], b[1]))
            t = json.loads(lines[i])
            self.violate(inv, t, step, label or t["t"])
        return lines

    def sample(self, line, label):
        if len(self.cov["samples"]) >= 4:
            return
        t = json.loads(line)
        ops = []
        for s in t["s"][:12]:
            ops.append(s.get("txt") or s["e"] + (" " + json.dumps({k: v for k, v in s["c"].items() if v}) if s["e"] == "api" else ""))
        self.cov["samples"].append({"part": label, "mode": t.get("mode"), "operations": ops})

    def violate(self, inv, trace, step, label):
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        p = os.path.join(EVID, "replays", "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
        s = trace["s"][step - 1] if 0 < step <= len(trace["s"]) else None
        with open(p, "w") as f:
            json.dump({"property": self.pid, "invariant": inv, "part": label, "step": step, "mode": trace.get("mode"),
                       "operations": [{k: x[k] for k in ("e", "slot", "src", "name", "at", "c", "txt") if k in x} for x in trace["s"][:step]],
                       "failing_step": s, "trace": trace}, f, indent=1)
        what = "%s violated at step %d of a %s run (%s): %s" % (inv, step, trace.get("mode"), label,
                                                            json.dumps((s or {}).get("txt") or (s or {}).get("c"))[:300])
        raise Violation(what, p)

    def violate_case(self, inv, case, label):
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        p = os.path.join(EVID, "replays", "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "invariant": inv, "part": label, "case": case}, f, indent=1)
        raise Violation("%s violated (%s): %s" % (inv, label, json.dumps(case)[:400]), p)

    # -- parts: scripts are collected, then run and checked together
    def walk(self, edges, label, mode="app", undo=False, reload=False, rename="", spell=False, budget=10**6, length=60, name="w"):
        sc = self.path("walk.ndjson")
        lab = "walk:%s:%s%s%s%s" % (label, mode, ":undo" if undo else "", ":reload" if reload else "", ":renamed" if rename else "")
        args = ["walk", "-in", edges, "-out", sc, "-seed", self.seed, "-len", length, "-mode", mode, "-budget", budget, "-name", name, "-label", lab]
        for f, on in (("-undo", undo), ("-spell", spell), ("-reload", reload)):
            if on:
                args.append(f)
        if rename:
            args += ["-rename", rename]
        r = json.loads(self.harness(*args))
        self.cov["model_edges"] += r["edges"]
        self.cov["model_edges_replayed"] += r["covered"]
        self.cov["parts"].append("walks over %s: %d of %d model transitions, %d steps%s" % (lab[5:], r["covered"], r["edges"], r["steps"],
                                                                                          ", ids " + rename if rename else ""))
        self.scripts.append(sc)

    def rnd(self, label, profile, n, length, name="w", seed=0):
        sc = self.path("gen.ndjson")
        self.harness("gen", "-profile", json.dumps(profile), "-seed", self.seed * 1000 + seed, "-n", n, "-len", length, "-out", sc, "-name", name,
                     "-label", "random:%s:%s" % (label, profile["Mode"]))
        self.cov["parts"].append("random %s, mode %s, %d ids: %d runs of %d steps" % (label, profile["Mode"], profile["NIds"], n, length))
        self.scripts.append(sc)

    def flush(self, invs, batch=45000, module="Trace"):
        """Runs the collected scripts in the real code and validates every recorded run."""
        lines = []
        for f in self.scripts:
            lines += [l for l in open(f) if l.strip()]
            os.unlink(f)
        self.scripts = []
        self.rng.shuffle(lines)
        i = skipped = 0
        took = 0.0
        if self.thorough:
            batch //= 2
        while i < len(lines):
            ops, b = 0, []
            while i < len(lines) and ops < batch:
                b.append(lines[i])
                ops += lines[i].count('"e":')
                i += 1
            start = time.time()
            if self.thorough and start - self.t0 + took > self.limit:
                skipped += len(b)
                continue
            p = self.path("scripts.ndjson")
            with open(p, "w") as f:
                f.writelines(b)
            tr = self.run_scripts(p)
            self.check_traces(tr, invs, module=module)
            os.unlink(p)
            os.unlink(tr)
            took = max(took, time.time() - start)
        if skipped:
            self.cov["parts"].append("time limit: %d of %d runs not made" % (skipped, len(lines)))

    # -- evidence
    def evidence(self, level, assumptions, violations):
        c = self.cov
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": c,
                       "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": violations}, f, indent=1)


def known_finding(pid, v):
    """A listed finding that describes exactly this violation: lines `finding: property=<id> match=<regex> <text>`."""
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return None
    for line in open(p):
        m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid and re.search(m.group(2), v.what):
            return m.group(3)
    return None

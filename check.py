#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01   |   check.py replay replays/FILE.json

Builds the harness against /repo's working tree, runs the jobs of the property on all cores,
collects what the monitors saw into evidence/<id>.json, and prints a VIOLATION line (exit 1)
for what they refuted. VERIF_SEED and VERIF_TIER are read from the environment.
Exit 2: no verdict (something did not build or did not finish).
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from threading import Lock, Semaphore

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = 8

sys.path.insert(0, ROOT)
import plan  # noqa: E402


def base_env():
    e = dict(os.environ)
    for k in ("GOMAXPROCS", "GORACE", "GODEBUG", "GOOS", "GOARCH", "GOEXPERIMENT", "GO386", "GOAMD64", "GOGC", "GOMEMLIMIT"):
        e.pop(k, None)
    home = e.get("HOME") or "/root"
    e.update(HOME=home, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=readonly", GOWORK="off", GOENV="off",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=e.get("VERIF_GOCACHE", "/root/.cache/go-build"), CGO_ENABLED="1")
    return e


def tail(s, n=3000):
    return s if len(s) <= n else s[:n // 2] + "\n...\n" + s[-n // 2:]


class BuildError(Exception):
    pass


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.bins, self.overlays, self.notes = {}, {}, []
        self.viol, self.inconclusive, self.jobs = [], [], []
        self.lock = Lock()
        self.samples, self.count, self.hashes = [], {}, set()
        self.evals = 0
        self.others = {}
        self.focus = []
        self.outcomes = None

    def note(self, s):
        with self.lock:
            self.notes.append(s)
        print("note:", s, flush=True)

    # ------------------------------------------------------------------ building
    def run(self, cmd, env=None, cwd=HARNESS, timeout=600):
        p = subprocess.run(cmd, env=env or base_env(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout

    def regen(self, k=0):
        """A copy of the tree, regenerated. k > 0: the k-th other outcome of regenerating, if there is one."""
        if k:
            return self.regens()[k]
        d = os.path.join(self.tmp, "regen")
        if not os.path.isdir(d):
            self.generate(REPO, d)
        return d

    def generate(self, src, d):
        shutil.copytree(src, d, ignore=shutil.ignore_patterns(".git"))
        rc, out = self.run(["go", "generate", "./..."], env=dict(base_env(), GOFLAGS="-mod=mod"), cwd=d)
        if rc:
            shutil.rmtree(d)  # it fails again when it is needed again
            raise BuildError("go generate ./... fails:\n" + out)
        return d

    def regens(self):
        """The different outcomes of regenerating several times, and of regenerating what was regenerated."""
        if self.outcomes is None:
            first = self.regen()
            dirs = [os.path.join(self.tmp, "regen-%d" % i) for i in range(8)]
            with ThreadPoolExecutor(4) as ex:
                list(ex.map(lambda d: self.generate(first if d == dirs[0] else REPO, d), dirs))
            self.outcomes, seen = [], set()
            for d in [first] + dirs:
                h = hashlib.sha256()
                for f in sorted(os.listdir(d)):
                    if f.endswith(".go") and not f.endswith("_test.go"):
                        h.update(f.encode() + b"\0" + open(os.path.join(d, f), "rb").read() + b"\0")
                if h.digest() not in seen and len(self.outcomes) < 4:
                    seen.add(h.digest())
                    self.outcomes.append(d)
                elif d != first:
                    shutil.rmtree(d)
        return self.outcomes

    def overlay(self, kind):
        if kind in self.overlays:
            return self.overlays[kind]
        d = os.path.join(self.tmp, "ov-" + kind)
        os.makedirs(d)
        cmd = [os.path.join(self.tmp, "vinstr"), "-repo", REPO, "-out", d]
        m = re.match(r"regen(\d*)", kind)
        if m:
            cmd += ["-src", self.regen(int(m.group(1) or 0))]
        if kind.endswith("plain"):
            cmd += ["-shim=false"]
        if kind == "tick":
            cmd += ["-tick"]
        rc, out = self.run(cmd)
        if rc:
            raise BuildError("vinstr: " + out)
        self.overlays[kind] = os.path.join(d, "overlay.json")
        return self.overlays[kind]

    def build(self, name):
        """name: ctl|nat [+race] [+asan] [+386] [+go1.NN] [+regen] [+tick]"""
        parts = name.split("+")
        env = base_env()
        go, args = "go", []
        kind = "shim" if parts[0] == "ctl" else None
        for p in parts[1:]:
            if p == "race":
                args += ["-race", "-gcflags=verif/vsched=-race=false", "-gcflags=verif/mon=-race=false"]
            elif p == "asan":
                args += ["-asan"]
            elif p == "386":
                env.update(GOARCH="386", CGO_ENABLED="0")
            elif p.startswith("go1"):
                go = p
            elif p == "tick":
                kind = "tick"
            elif p.startswith("regen"):
                kind = p if kind == "shim" else p + "plain"
        if kind:
            args += ["-overlay", self.overlay(kind)]
        out = os.path.join(self.tmp, "bin-" + name.replace("+", "_"))
        rc, text = self.run([go, "build"] + args + ["-o", out, "./cmd/vrun"], env=env)
        if rc:
            raise BuildError("build %s: %s" % (name, text))
        return out

    def divergent(self):
        """Kinds of set whose committed source is not what the generator makes of the template.
        The workload favours them (the verdict does not depend on it)."""
        out = []
        try:
            d = self.regen()
            for f in sorted(os.listdir(REPO)):
                m = re.match(r"gen_(\w+)\.go$", f)
                if m and open(os.path.join(REPO, f)).read() != (open(os.path.join(d, f)).read() if os.path.exists(os.path.join(d, f)) else ""):
                    out.append(m.group(1))
        except Exception as e:
            print("note: no comparison with the template:", tail(str(e), 300))
        return out if len(out) <= 8 else []

    # ------------------------------------------------------------------ running
    def command(self, job, out):
        n = job["n"]
        cmd = [self.bins[job["build"]], "-engine", job["engine"], "-profile", job.get("profile", "all"),
               "-seed", str(self.seed), "-to", str(n), "-classes", ",".join(plan.relevant_classes(self.prop))]
        if self.focus:
            cmd += ["-focus", ",".join(self.focus)]
        if job.get("delay"):
            cmd.append("-delay")
        if job.get("deep"):
            cmd.append("-deep")
        if job.get("gogc"):
            cmd += ["-gogc", str(job["gogc"])]
        return cmd

    def worker(self, job, shard, shards):
        out = os.path.join(self.tmp, "out-%s-%d" % (re.sub(r"\W+", "_", job["id"] + "_" + job["build"]), shard))
        # on a slow machine a job ends early rather than not at all; every job gets its share
        left = max(20.0, 0.6 * (self.end - time.time()))
        if time.time() > self.end + 60:
            with self.lock:
                job.setdefault("killed", []).append("shard %d: not started" % shard)
            return
        cmd = self.command(job, out) + ["-from", str(shard), "-step", str(shards), "-out", out, "-deadline", "%.0f" % left]
        env = base_env()
        env["GOMAXPROCS"] = str(job.get("procs", 2))
        env["GOTRACEBACK"] = "all"
        if "race" in job["build"]:
            env["GORACE"] = "halt_on_error=1 exitcode=66 history_size=3"
        if job.get("godebug"):
            env["GODEBUG"] = job["godebug"]
        t = time.time()
        err = out + ".err"
        with open(err, "wb") as f:
            p = subprocess.Popen(cmd, env=env, cwd=self.tmp, stdout=f, stderr=f, start_new_session=True)
            try:
                rc = p.wait(timeout=left + plan.GRACE)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
        with open(err, "rb") as f:
            text = f.read(2_000_000).decode("utf8", "replace")
        self.collect(job, shard, rc, out, text, time.time() - t, cmd)

    def collect(self, job, shard, rc, out, text, wall, cmd):
        d = None
        try:
            with open(out) as f:
                d = json.load(f)
        except Exception:
            pass
        case = -1
        try:
            case = int(open(out + ".case").read().split()[0])
        except Exception:
            pass
        with self.lock:
            if d:
                self.evals += d["cases"]
                job["cases"] = job.get("cases", 0) + d["cases"]
                job["nontrivial"] = job.get("nontrivial", 0) + d["nontrivial"]
                job["wall"] = max(job.get("wall", 0), round(wall, 1))
                if d.get("stopped"):
                    job["stopped early"] = job.get("stopped early", 0) + 1
                if d["inconclusive"]:
                    job["undecided"] = job.get("undecided", 0) + d["inconclusive"]
                c = job.setdefault("count", {})
                for k, v in d["count"].items():
                    if k.startswith("variant "):
                        job.setdefault("variants", set()).add(k[8:])
                        c = self.count
                        c[k] = c.get(k, 0) + v
                    elif k.startswith(("worst", "largest", "growth")):
                        job["count"][k] = max(job["count"].get(k, 0), v)
                    else:
                        job["count"][k] = job["count"].get(k, 0) + v
                if os.path.exists(out + ".hash"):
                    b = open(out + ".hash", "rb").read()
                    salt = hash((job["engine"], job.get("profile"), job["build"])) & 0xFFFFFFFFFFFF
                    self.hashes.update((salt, b[i:i + 8]) for i in range(0, len(b), 8))
                if shard == 0:
                    job["samples"] = d["samples"][:2]
                for v in d["violations"]:
                    self.add(job, v["class"], v["variant"], v["index"], v["msg"], v["detail"])
                self.others.update({k: self.others.get(k, 0) + v for k, v in d["by_class"].items()})
                if rc == 0:
                    return
            # the worker did not end by itself
            if rc == "timeout":
                job.setdefault("killed", []).append("shard %d: no end after %d s, at case %d" % (shard, wall, case))
                return
            if rc == 66 or "WARNING: DATA RACE" in text:
                i = text.find("WARNING: DATA RACE")
                self.add(job, "RACE", "", case, "the race detector reports: " + first_frames(text[i:]), tail(text[i:], 8000))
                return
            if "AddressSanitizer" in text:
                i = text.find("AddressSanitizer")
                self.add(job, "RACE", "", case, "AddressSanitizer: " + tail(text[i:], 200), tail(text[i:], 8000))
                return
            m = re.search(r"^(fatal error: .*|panic: .*|unexpected fault address.*|SIGSEGV.*|runtime: .*checkptr.*)$", text, re.M)
            if m and "out of memory" not in text and "cannot allocate" not in text:
                pkg = re.search(r"zhangyunhao116/skipset\.", text)
                if pkg or "checkptr" in text:
                    self.add(job, "PANIC", "", case, "the process died: " + m.group(1), tail(text[m.start():], 8000))
                    return
            self.inconclusive.append("job %s shard %d: exit status %s at case %d: %s" % (job["id"], shard, rc, case, tail(text, 1500)))

    def add(self, job, cls, variant, index, msg, detail):
        self.viol.append(dict(cls=cls, variant=variant, index=index, msg=msg, detail=detail,
                              build=job["build"], engine=job["engine"], profile=job.get("profile", "all"), job=job["id"]))

    # ------------------------------------------------------------------ all of it
    def execute(self):
        t0 = time.time()
        self.end = t0 + plan.BUDGET[self.tier]
        jobs = plan.jobs(self.prop, self.tier)
        rc, out = self.run(["go", "build", "-o", os.path.join(self.tmp, "vinstr"), "./cmd/vinstr"])
        if rc:
            self.inconclusive.append("vinstr: " + out)
            return self.finish(t0)
        self.focus = self.divergent()
        if self.focus:
            self.note("the workload favours sources that differ from the template: " + ", ".join(self.focus))
        steps = plan.steps(self.prop)
        for s in steps:
            getattr(self, "step_" + s)()
        if "regenerate" in steps:
            for k in range(1, len(self.outcomes or [])):
                jobs += plan.jobs(self.prop, self.tier, plan.REGENERATED_AGAIN(k))
        names = []
        for j in jobs:
            if j["build"] not in names:
                names.append(j["build"])
        # overlays first (shared), then the builds in parallel
        errors = {}
        for kind in ("shim", "tick", "regen", "regenplain") + tuple("regen%d" % k for k in range(1, len(self.outcomes or []))):
            try:
                if kind == "tick" and any("tick" in n for n in names) or kind == "shim" and any(n.startswith("ctl") and "regen" not in n for n in names) or \
                   kind == "regen" and any(n.startswith("ctl") and "regen" in n for n in names) or \
                   kind == "regenplain" and any(n.startswith("nat") and "regen" in n for n in names) or kind[5:].isdigit():
                    self.overlay(kind)
            except (BuildError, subprocess.TimeoutExpired) as e:
                errors[kind] = str(e)

        def one(n):
            try:
                self.bins[n] = self.build(n)
            except (BuildError, subprocess.TimeoutExpired, KeyError, OSError) as e:
                errors[n] = str(e)
        with ThreadPoolExecutor(3) as ex:
            list(ex.map(one, names))
        self.build_wall = round(time.time() - t0, 1)
        missing = [n for n in names if n not in self.bins]
        if missing:
            rc, out = self.run(["go", "build", "./..."], cwd=REPO, env=dict(base_env(), GOFLAGS="-mod=mod"))
            for n in missing:
                if rc == 0 and plan.build_decides(self.prop, n):
                    self.viol.append(dict(cls="BUILD", variant="", index=-1, msg="does not build as %s" % n, detail=tail(errors.get(n, ""), 6000),
                                          build=n, engine="build", profile="", job="build"))
                else:
                    self.note("build %s failed: %s" % (n, tail(errors.get(n, ""), 1500)))
            jobs = [j for j in jobs if j["build"] in self.bins]
            if not jobs and not self.viol:
                self.inconclusive.append("nothing could be built")
        self.jobs = jobs
        # controlled engines first, each on one core; then the free-running ones
        for j in jobs:
            j["procs"] = j.get("procs") or (2 if j["build"].startswith("ctl") and not j.get("free") else 4)
        for phase in (0, 1):
            if any(plan.relevant(self.prop, v) for v in self.viol):
                break  # refuted already
            todo = []
            for j in jobs:
                free = j["procs"] > 2
                if free != bool(phase):
                    continue
                shards = min(j.get("shards", 2 if free else 8), j["n"])
                todo += [(j, s, shards) for s in range(shards)]
            with ThreadPoolExecutor(2 if phase else NCPU) as ex:
                list(ex.map(lambda a: self.worker(*a), todo))
        return self.finish(t0)

    # ------------------------------------------------------------------ extra steps
    def step_regenerate(self):
        env = dict(base_env(), GOFLAGS="-mod=mod")
        fail = lambda msg, detail: self.viol.append(dict(cls="BUILD", variant="", index=-1, msg=msg, detail=tail(detail, 6000), build="", engine="generate", profile="", job="generate"))
        try:
            dirs = self.regens()
        except (BuildError, subprocess.TimeoutExpired) as e:
            if self.run(["go", "build", "./..."], cwd=REPO, env=env)[0] == 0:
                fail("regeneration fails", str(e))
            else:
                self.inconclusive.append(str(e))
            return
        tool = os.path.join(self.tmp, "vapi")
        rc, out = self.run(["go", "build", "-o", tool, "./cmd/vapi"])
        if rc:
            self.inconclusive.append("vapi: " + out)
            return
        a = self.run([tool, REPO])[1]
        n = len(a.splitlines())
        self.count["exported declarations compared"] = n
        self.count["outcomes of regenerating nine times"] = len(dirs)
        self.note("regenerated nine times, %d outcome(s); %d exported declarations compared" % (len(dirs), n))
        for d in dirs:
            rc, out = self.run(["go", "build", "./..."], cwd=d, env=env)
            if rc:
                if self.run(["go", "build", "./..."], cwd=REPO, env=env)[0] == 0:
                    fail("the regenerated sources do not compile", out)
                else:
                    self.inconclusive.append("the tree does not compile")
                return
            b = self.run([tool, d])[1]
            self.samples.append("regenerated sources: %d exported declarations, e.g. %s" % (n, " | ".join(b.splitlines()[:3])))
            if a != b:
                x, y = set(a.splitlines()), set(b.splitlines())
                fail("the regenerated sources export other declarations than the committed ones",
                     "only committed:\n%s\nonly regenerated:\n%s" % ("\n".join(sorted(x - y)), "\n".join(sorted(y - x))))

    def step_platforms(self):
        """Compile the package itself for every platform and toolchain."""
        env0 = dict(base_env(), GOFLAGS="-mod=mod", CGO_ENABLED="0")
        rc, _ = self.run(["go", "build", "./..."], cwd=REPO, env=env0)
        if rc:
            self.inconclusive.append("the tree does not compile")
            return
        todo = [("go", a) for a in plan.ARCHES] + [(g, "amd64") for g in plan.TOOLCHAINS]

        def one(x):
            g, a = x
            goos = "linux"
            if "/" in a:
                goos, a = a.split("/")
            rc, out = self.run([g, "build", "./..."], cwd=REPO, env=dict(env0, GOARCH=a, GOOS=goos))
            with self.lock:
                self.count["compiled %s %s/%s" % (g, goos, a)] = 1
                if rc:
                    if re.search(r"internal compiler error|no space left|cannot find package|signal: killed", out):
                        self.inconclusive.append("compile %s %s: %s" % (g, a, tail(out, 800)))
                        return
                    self.viol.append(dict(cls="BUILD", variant="", index=-1, msg="does not compile with %s for %s/%s" % (g, goos, a),
                                          detail=tail(out, 4000), build="", engine="compile", profile="", job="compile"))
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(one, todo))
        self.note("compiled for %d platforms and toolchains" % len(todo))

    # ------------------------------------------------------------------ verdict
    def finish(self, t0):
        relevant, foreign = [], {}
        for j in self.jobs:
            if j.get("killed") and not self.evals:
                self.inconclusive.append("job %s: %s" % (j["id"], "; ".join(j["killed"])))
            elif j.get("killed"):
                self.note("job %s, workers killed or not started: %s" % (j["id"], "; ".join(j["killed"])))
            if j.get("stopped early"):
                self.note("job %s: %d workers stopped by the deadline" % (j["id"], j["stopped early"]))
        for v in self.viol:
            if plan.relevant(self.prop, v):
                relevant.append(v)
            else:
                foreign[v["cls"]] = foreign.get(v["cls"], 0) + 1
        known = load_known(self.prop)
        new, seen_known = [], []
        for v in relevant:
            k = next((k for k in known if k.search(v["variant"] + " " + v["engine"] + " " + v["msg"])), None)
            if k is None:
                new.append(v)
            elif k.pattern not in seen_known:
                seen_known.append(k.pattern)
                print("KNOWN-FINDING: property=%s %s" % (self.prop, v["msg"]))
        for k, n in foreign.items():
            self.note("%d observations of class %s, which is not a matter of %s" % (n, k, self.prop))
        replays = []
        for i, v in enumerate(new[:3]):
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            path = os.path.join("replays", "%s-%d.json" % (self.prop, i))
            job = next((j for j in self.jobs if j["id"] == v["job"]), None)
            with open(os.path.join(ROOT, path), "w") as f:
                json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, focus=self.focus,
                               job={k: x for k, x in (job or {}).items() if k in ("id", "build", "engine", "profile", "n", "delay", "deep", "gogc", "procs", "godebug")},
                               violation=v), f, indent=1)
            replays.append(path)
        samples = list(self.samples)
        table = []
        for j in self.jobs:
            for s in j.get("samples", []):
                samples.append("[%s] %s" % (j["id"], s))
            table.append({"job": j["id"], "build": j["build"], "engine": j["engine"], "profile": j.get("profile", "all"),
                          "cases": j.get("cases", 0), "nontrivial": j.get("nontrivial", 0), "kinds of set": len(j.get("variants", ())),
                          "wall_s": j.get("wall", 0), "undecided": j.get("undecided", 0), "stopped by the deadline": j.get("stopped early", 0) + len(j.get("killed", ())), "observed": j.get("count", {})})
        kinds = {k[8:]: v for k, v in self.count.items() if k.startswith("variant ")}
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": self.evals,
                "distinct_nontrivial": len(self.hashes),
                "rule": plan.RULE[self.prop],
                "samples": samples[:24],
                "jobs": table,
                "cases per kind of set": kinds,
                "other": {k: v for k, v in self.count.items() if not k.startswith("variant ")},
                "notes": self.notes,
                "no verdict from": self.inconclusive,
                "observations that belong to other properties": foreign,
            },
            "assumptions": plan.ASSUMPTIONS.get(self.prop, []) + plan.COMMON_ASSUMPTIONS,
            "wall_s": round(time.time() - t0, 1),
            "violations": len(new),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d cases, %d distinct nontrivial, %.0f s (build %.0f s)" % (self.prop, self.tier, self.evals, len(self.hashes), time.time() - t0, getattr(self, "build_wall", 0)))
        for v, r in zip(new, replays):
            print("VIOLATION property=%s replay=%s" % (self.prop, r))
            print("  %s %s [%s case %s]: %s" % (v["cls"], v["variant"], v["job"], v["index"], v["msg"]))
        if new:
            return 1
        if self.inconclusive:
            for x in self.inconclusive[:5]:
                print("NO VERDICT:", x)
            return 2
        return 0

    def cleanup(self):
        if self.tmp.startswith(tempfile.gettempdir()):
            shutil.rmtree(self.tmp, ignore_errors=True)


def first_frames(text):
    fr = re.findall(r"^  ([\w./\-]*skipset\.[^\s(]+(?:\([^)]*\)[^\s(]*)?|verif/payload\.[^\s(]+)", text, re.M)
    out = []
    for f in fr:
        f = f.split("/")[-1]
        if f not in out:
            out.append(f)
    return "data race: " + ", ".join(out[:6])


def load_known(prop):
    """known_findings.txt: lines 'known: property=C01 match=<regex> <description>'. 'fixed:' lines suppress nothing."""
    ks = []
    try:
        for line in open(os.path.join(ROOT, "known_findings.txt")):
            m = re.match(r"known: property=(\w+) match=(\S+) ", line)
            if m and m.group(1) == prop:
                ks.append(re.compile(m.group(2)))
    except FileNotFoundError:
        pass
    return ks


def replay(path):
    d = json.load(open(path))
    c = Check(d["property"], d["tier"], d["seed"])
    c.focus = d.get("focus") or []
    try:
        j = d["job"]
        print(json.dumps(d["violation"], indent=1)[:6000])
        if not j:
            return 2
        rc, out = c.run(["go", "build", "-o", os.path.join(c.tmp, "vinstr"), "./cmd/vinstr"])
        c.bins[j["build"]] = c.build(j["build"])
        i = d["violation"]["index"]
        cmd = c.command(j, "") + ["-from", str(i), "-trace"]
        cmd[cmd.index("-to") + 1] = str(i + 1)
        env = base_env()
        env["GOMAXPROCS"] = str(j.get("procs", 2))
        if j.get("godebug"):
            env["GODEBUG"] = j["godebug"]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p.stdout)
        bad = p.returncode != 0 or '"violations": [\n' in p.stdout
        print("replay: " + ("the violation shows again" if bad else "no violation this time"))
        return 1 if bad else 0
    finally:
        c.cleanup()


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    if prop == "setup":  # compile everything once
        c = Check("setup", "quick", 1)
        try:
            rc, out = c.run(["go", "build", "-o", os.path.join(c.tmp, "vinstr"), "./cmd/vinstr"])
            if rc == 0:
                c.build("ctl")
                c.build("nat")
            else:
                print(out)
            sys.exit(1 if rc else 0)
        finally:
            c.cleanup()
    tier = os.environ.get("VERIF_TIER") or "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    c = Check(prop, tier, seed)
    try:
        rc = c.execute()
    except Exception:
        traceback.print_exc()
        print("NO VERDICT: the check itself failed")
        rc = 2
    finally:
        c.cleanup()
    sys.exit(rc)


if __name__ == "__main__":
    main()

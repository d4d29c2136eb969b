"""Shared machinery of the checks: building, running workers under observation,
classifying what happened, evidence and verdicts."""
import json, os, re, resource, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
GOBIN = "/usr/local/go/bin"
LIB = "github.com/RomiChan/protobuf/"
NCPU = os.cpu_count() or 4

TIER = os.environ.get("VERIF_TIER", "quick")
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1


def hints():
    """Constants of the code under test for the generators of this run."""
    import atexit, dictionary
    path = dictionary.prepare(REPO, OUT)
    if path:
        os.environ["VERIF_DICT"] = path
        atexit.register(lambda: os.path.exists(path) and os.unlink(path))


def current_hints():
    """The hints of this run, for a replay: VERIF_DICT names a file that holds them."""
    try:
        return json.load(open(os.environ["VERIF_DICT"]))
    except (KeyError, OSError, ValueError):
        return None


class HarnessError(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.msg, self.replay = msg, replay


def env(**kw):
    e = dict(os.environ)
    for k in ("GOFLAGS", "GODEBUG", "GORACE", "GOGC", "GOMEMLIMIT", "GOMAXPROCS", "GOARCH", "GOOS", "GOEXPERIMENT", "GOWORK", "CGO_ENABLED",
              "GOTRACEBACK"):
        e.pop(k, None)
    e["PATH"] = GOBIN + ":/usr/local/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1", GOWORK="off")
    e.update(kw)
    return e


def sh(cmd, cwd=None, timeout=800, **kw):
    """Run a command; returns (code, stdout+stderr)."""
    p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


class Check:
    """One run of the check of one property."""

    def __init__(self, prop, rule, min_nontrivial):
        self.prop, self.rule, self.min_nontrivial = prop, rule, min_nontrivial
        self.t0 = time.time()
        self.dir = os.path.join(OUT, "%s-%s-%d" % (prop, TIER, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.replays = os.path.join(OUT, "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.evals = 0
        self.hashes = set()
        self.cover = {}
        self.samples = []
        self.variants = {}
        self.extra = {}
        self.assumptions = []
        self.violations = []   # (message, replay path)
        self.known = []        # lines printed
        self.errors = []
        self.notes = set()

    # ---- building ----
    def build(self, name, flags=(), go="go", tags=None, **e):
        """Build the worker from /repo's working tree."""
        exe = os.path.join(self.dir, "worker-" + name)
        mod = os.path.join(self.dir, "go.%s.mod" % name)
        src = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(mod, "w").write(src)
        shutil.copy(os.path.join(VERIF, "harness", "go.sum"), mod[:-3] + "sum")
        code, out = sh([go, "build", "-modfile", mod, *flags, "-o", exe, "./worker"], cwd=os.path.join(VERIF, "harness"), **e)
        if code:
            raise HarnessError("building the worker (%s) failed:\n%s" % (name, out[-4000:]))
        return exe

    # ---- running ----
    def run(self, jobs, parallel=NCPU):
        """Run jobs (dicts: exe, variant, prop, shard, shards, cases, args, env, as_limit,
        case_cpu) in parallel and collect what they observed."""
        lock = threading.Lock()
        queue = list(enumerate(jobs))
        threads = []
        stop = []

        def work():
            while True:
                with lock:
                    if not queue or stop:
                        return
                    i, j = queue.pop(0)
                try:
                    r = self.one(i, j)
                    with lock:
                        self.collect(j, r)
                        if self.violations and TIER == "quick":
                            stop.append(1)
                except Exception as e:  # noqa
                    with lock:
                        self.errors.append("%s: %s" % (j.get("variant"), e))
                        stop.append(1)

        for _ in range(min(parallel, len(jobs))):
            t = threading.Thread(target=work)
            t.start()
            threads.append(t)
        for t in threads:
            t.join()

    def cmdline(self, j, exe=None):
        return [exe or j["exe"], "-prop", j.get("workload", self.prop), "-seed", str(j.get("seed", SEED)), "-tier", TIER,
                "-shard", str(j["shard"]), "-shards", str(j["shards"]), "-cases", str(j["cases"])] + list(j.get("args", []))

    def one(self, i, j):
        base = os.path.join(self.dir, "job%d" % i)
        outf, prog = base + ".json", base + ".progress"
        cmd = self.cmdline(j) + ["-out", outf, "-progress", prog]
        limit = j.get("as_limit")

        def pre():
            os.setsid()
            if limit:
                resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        with open(base + ".stdout", "wb") as so, open(base + ".stderr", "wb") as se:
            p = subprocess.Popen(cmd, stdout=so, stderr=se, env=env(**j.get("env", {})), cwd=self.dir, preexec_fn=pre)
            hang = self.watch(p, prog, j.get("case_cpu", 60))
        with open(base + ".stderr", "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            err = f.read(400000).decode("utf-8", "replace")
            if n > 800000:
                f.seek(n - 100000)
                err += "\n...\n" + f.read().decode("utf-8", "replace")
        res = None
        try:
            res = json.load(open(outf))
        except (OSError, ValueError):
            pass
        case = None
        try:
            case = int(open(prog).read().split()[0])
        except (OSError, ValueError, IndexError):
            pass
        for f in (base + ".stdout", base + ".stderr", outf, prog):
            if os.path.exists(f):
                os.remove(f)
        return dict(code=p.returncode, hang=hang, err=err, res=res, case=case)

    @staticmethod
    def cpu(pid):
        try:
            s = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
            return (int(s[11]) + int(s[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return None

    def watch(self, p, prog, case_cpu):
        """Wait for the process. A case that uses far too much CPU, or none at all for
        a long time, is interrupted with SIGQUIT so that the stacks tell why."""
        last, c0, idle0, idle_cpu = None, 0.0, time.time(), 0.0
        verdict = None
        t_quit = None
        while True:
            try:
                p.wait(0.2)
                return verdict
            except subprocess.TimeoutExpired:
                pass
            now, c = time.time(), self.cpu(p.pid)
            if c is None:
                continue
            if t_quit:
                if now - t_quit > 30:
                    os.killpg(p.pid, signal.SIGKILL)
                continue
            try:
                k = open(prog).read().split()[0]
            except (OSError, IndexError):
                k = None
            if k != last:
                last, c0, idle0, idle_cpu = k, c, now, c
            if c - idle_cpu > 0.3:
                idle0, idle_cpu = now, c
            if c - c0 > case_cpu:
                verdict = "cpu"
            elif now - idle0 > 120:
                verdict = "blocked"
            if verdict:
                p.send_signal(signal.SIGQUIT)
                t_quit = now

    # ---- classification ----
    def collect(self, j, r):
        v = j.get("variant", "plain")
        res = r["res"]
        if res:
            self.evals += res["evals"]
            self.hashes.update(res["hashes"] or [])
            for k, n in (res["cover"] or {}).items():
                self.cover[k] = self.cover.get(k, 0) + n
            if len(self.samples) < 6:
                self.samples += (res["samples"] or [])[:1]
            d = self.variants.setdefault(v, {"processes": 0, "cases": 0, "evaluations": 0})
            d["processes"] += 1
            d["cases"] += res["cases"]
            d["evaluations"] += res["evals"]
            self.notes.update(res.get("notes") or [])
            j["digest"] = res.get("digest") or []
        if r["code"] == 0 and res:
            if res.get("violation"):
                w = res["violation"]
                self.report(j, w["case"], w["msg"], w.get("trace"))
            return
        if r["code"] == 3:
            self.errors.append("worker (%s): %s" % (v, (res or {}).get("harness_error") or r["err"][-3000:]))
            return
        # the process did not end normally
        kind, blame = classify(r)
        if j.get("known_key"):
            j["outcome"] = kind
        if kind == "memory exhausted" and j.get("no_memory_rule"):
            # the property says nothing about the room a message of gigabytes takes
            k = "giant: not judged, not enough memory"
            self.cover[k] = self.cover.get(k, 0) + 1
            return
        if blame:
            key = j.get("known_key")
            line = known(self.prop, key) if key else None
            if line and kind == "stack overflow":
                self.known.append(line)
                return
            self.report(j, r["case"], "%s (%s build)" % (kind, v), [excerpt(r["err"])])
        else:
            self.errors.append("worker (%s) ended abnormally (code %s, %s, case %s):\n%s" % (v, r["code"], kind, r["case"], excerpt(r["err"])))

    def report(self, j, case, msg, trace):
        n = len(self.violations)
        path = os.path.join(self.replays, "%s-%s-seed%d-%d.json" % (self.prop, TIER, SEED, n))
        cmd = self.cmdline(j, exe="worker-" + j.get("build", "plain"))
        if case is not None:
            cmd += ["-upto", str(case)]
        json.dump({"property": self.prop, "variant": j.get("variant"), "build": j.get("build", "plain"), "build_flags": j.get("build_flags", []),
                   "build_env": j.get("build_env", {}), "go": j.get("go", "go"), "env": j.get("env", {}), "args": cmd[1:],
                   "case": case, "what": msg, "trace": trace, "hints": current_hints()}, open(path, "w"), indent=1)
        self.violations.append((msg, path))

    def violation(self, msg, data):
        path = os.path.join(self.replays, "%s-%s-seed%d-%d.json" % (self.prop, TIER, SEED, len(self.violations)))
        json.dump({"property": self.prop, "what": msg, **data}, open(path, "w"), indent=1)
        self.violations.append((msg, path))

    # ---- the end ----
    def finish(self):
        if not self.violations and not self.errors and len(self.hashes) < self.min_nontrivial:
            self.errors.append("only %d distinct non-trivial cases were observed, %d are required" % (len(self.hashes), self.min_nontrivial))
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.hashes),
            "rule": self.rule,
            "samples": self.samples[:6] or ["(none: stopped before the first sample)"],
            "workload_processes": self.variants,
            "observed": {k: self.cover[k] for k in sorted(self.cover) if not k.startswith("shape:")},
            "field_shapes_exercised": len([k for k in self.cover if k.startswith("shape:")]),
            "toolchains": sorted(self.notes),
        }
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (self.prop, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        shutil.rmtree(self.dir, ignore_errors=True)
        for line in self.known:
            print(line)
        if self.violations:
            for msg, path in self.violations[:5]:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  " + msg.replace("\n", "\n  ")[:3000])
            return 1
        if self.errors:
            for e in self.errors[:3]:
                print("ERROR of the check %s: %s" % (self.prop, e[:6000]), file=sys.stderr)
            return 2
        print("%s held: %d evaluations, %d distinct non-trivial cases, %.0f s" % (self.prop, self.evals, len(self.hashes), time.time() - self.t0))
        return 0


def known(prop, key):
    """The line to print for a known finding, if it is listed."""
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop and m.group(2) == key:
                return "KNOWN-FINDING: property=%s %s" % (prop, m.group(3))
    except OSError:
        pass
    return None


CORRUPTION = ["found bad pointer in Go heap", "found pointer to free object", "sweep increased allocation count", "marked free object",
              "unexpected fault address", "unexpected signal during runtime execution", "bad sweepgen", "invalid pointer found on stack",
              "runtime: bad pointer in frame", "span has no free space", "heapBitsSetType", "bad summary data", "missing stack map",
              "concurrent map", "SIGSEGV", "SIGBUS", "AddressSanitizer", "checkptr", "pointer to unallocated span", "s.allocCount",
              "malloc deadlock", "corrupt", "workbuf is empty", "greyobject", "scanobject"]


def excerpt(err, n=6000):
    # skip what precedes the first sign of trouble
    best = 0
    for pat in ("WARNING: DATA RACE", "AddressSanitizer", "fatal error:", "panic:", "runtime: ", "SIGSEGV", "SIGQUIT"):
        i = err.find(pat)
        if i >= 0:
            best = i if best == 0 else min(best, i)
    return err[best:best + n]


def stacks(err):
    """The goroutine stacks of a Go traceback, as (header, text)."""
    out = []
    for m in re.finditer(r"^(goroutine \d+[^\n]*\[[^\n]*\]:)\n(.*?)(?=^\s*$|\Z)", err, re.M | re.S):
        out.append((m.group(1), m.group(2)))
    return out


def classify(r):
    """What an abnormal end was, and whether the library is to blame for it."""
    err, code = r["err"], r["code"]
    if "WARNING: DATA RACE" in err:
        for rep in err.split("WARNING: DATA RACE")[1:]:
            rep = rep.split("==================")[0]
            access = re.split(r"^Goroutine \d+ ", rep, flags=re.M)[0]
            if LIB in access:
                return "data race inside the library", True
        return "data race outside the library", False
    if r["hang"]:
        # which goroutines are inside the library?
        inside = [h for h, t in stacks(err) if LIB in t]
        if r["hang"] == "cpu":
            return "a call does not end (CPU time exhausted)", bool(inside) or LIB in err
        return "calls block forever", bool(inside)
    if "ERROR: AddressSanitizer" in err:
        rep = err.split("ERROR: AddressSanitizer", 1)[1][:20000]
        return "AddressSanitizer: " + rep.split("\n")[0].strip(": ")[:160], LIB in rep
    if "goroutine stack exceeds" in err or "stack overflow" in err:
        return "stack overflow", LIB in err
    if "all goroutines are asleep" in err:
        return "deadlock", LIB in err
    if "out of memory" in err or "cannot allocate memory" in err:
        first = next((t for h, t in stacks(err) if "running" in h), "")
        return "memory exhausted", LIB in first
    m = re.search(r"^(fatal error: [^\n]*|panic: [^\n]*|unexpected fault address[^\n]*|SIG[A-Z]+:[^\n]*)", err, re.M)
    if m:
        what = m.group(1)[:200]
        st = stacks(err)
        first = next((t for h, t in st if "running" in h or "runnable" in h), st[0][1] if st else "")
        if "checkptr" in what:
            # the frame that did the arithmetic
            frames = [l for l in first.split("\n") if l and not l.startswith("\t") and not l.startswith("runtime.")]
            return what, bool(frames) and LIB in frames[0]
        if LIB in first:
            return what, True
        if any(c in err for c in CORRUPTION):
            return "memory corruption: " + what, True
        return what, False
    if code is not None and code < 0:
        return "killed by signal %d" % -code, False
    return "exit code %s" % code, False

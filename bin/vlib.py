"""Shared machinery: build the code under test, run harnesses, run TLC, report, write evidence."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, ".build")
WORK = os.path.join(ROOT, ".work")
REPLAY = os.path.join(ROOT, "replay")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 8)


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


# --------------------------------------------------------------------------- building
def sources():
    out = []
    for d, dirs, fs in os.walk(os.path.join(REPO, "c")):
        dirs[:] = [x for x in dirs if not x.startswith(".") and x != "samples"]
        for f in fs:
            if f.endswith((".c", ".h")):
                out.append(os.path.join(d, f))
    return sorted(out)


def srchash():
    h = hashlib.sha256()
    for f in sources():
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    for f in sorted(glob.glob(HARN + "/*")):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]


FLAVOURS = {
    "plain": ["gcc", "-O2", "-g"],
    "san": ["gcc", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all"],
    "dbg": ["gcc", "-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-DDEBUG"],
}


def _cc(job):
    cmd, out = job
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p.returncode, " ".join(cmd) + "\n" + p.stderr[-4000:]


def build(names, flavour="plain", app=False):
    """Compile the library (and the application when app) of REPO's working tree plus the named
    harnesses. Returns {name: executable}."""
    names = list(names)
    d = os.path.join(BUILD, srchash(), flavour)
    os.makedirs(d, exist_ok=True)
    cc = FLAVOURS[flavour]
    ex = {n: os.path.join(d, n) for n in names}
    if app:
        ex["planarity"] = os.path.join(d, "planarity")
    if all(os.path.exists(p) for p in ex.values()):
        return ex
    prune_builds()
    import fcntl
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        inc = ["-I" + os.path.join(REPO, "c", "graphLib"), "-I" + os.path.join(REPO, "c")]
        lib = [f for f in sources() if f.endswith(".c") and "/graphLib/" in f]
        appsrc = [f for f in sources() if f.endswith(".c") and "/graphLib/" not in f]
        jobs, objs, aobjs = [], [], []
        for f in lib + (appsrc if app else []):
            o = os.path.join(d, os.path.relpath(f, REPO).replace("/", "_") + ".o")
            (objs if f in lib else aobjs).append(o)
            if not os.path.exists(o):
                jobs.append((cc + ["-w", "-c", f, "-o", o] + inc, o))
        for n in names:
            o = os.path.join(d, n + ".o")
            if not os.path.exists(o):
                jobs.append((cc + ["-w", "-c", os.path.join(HARN, n + ".c"), "-o", o, "-I" + HARN] + inc, o))
        with cf.ThreadPoolExecutor(CPUS) as tp:
            for rc, msg in tp.map(_cc, jobs):
                if rc:
                    raise CheckError("compilation failed: " + msg)
        for n in names:
            extra = ["-Wl,--wrap=" + s for s in WRAP.get(n, [])]
            rc, msg = _cc((cc + [os.path.join(d, n + ".o")] + objs + extra + ["-lm", "-o", ex[n] + ".tmp"], None))
            if rc:
                raise CheckError("link failed: " + msg)
            os.rename(ex[n] + ".tmp", ex[n])
        if app:
            rc, msg = _cc((cc + ["-w", os.path.join(HARN, "count_alloc.c")] + aobjs + objs + ["-Wl,--wrap=" + s for s in COUNTED]
                           + ["-lm", "-o", ex["planarity"] + ".tmp"], None))
            if rc:
                raise CheckError("link failed: " + msg)
            os.rename(ex["planarity"] + ".tmp", ex["planarity"])
    return ex


COUNTED = ["malloc", "calloc", "realloc", "strdup", "free"]   # the application, linked with count_alloc.c
WRAP = {"h_alloc": ["malloc", "calloc", "realloc", "strdup", "free"]}


def prune_builds():
    try:
        ds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime)
    except OSError:
        return
    for x in ds[:-6]:
        if time.time() - os.path.getmtime(x) > 1800:
            shutil.rmtree(x, ignore_errors=True)


# --------------------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, workers=1, timeout=840, heap=None, extra=(), name="t"):
    """Run TLC on spec/<module>.tla. Returns dict(rc, out, states, distinct, wall)."""
    d = os.path.join(WORK, "tlc", "%s-%d-%s" % (name, os.getpid(), os.urandom(4).hex()))
    os.makedirs(d, exist_ok=True)
    cf_ = os.path.join(d, module + ".cfg")
    open(cf_, "w").write(cfg)
    heap = heap or ("6g" if workers > 1 else "2500m")
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4",
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", d,
           "-config", cf_] + list(extra) + [module + ".tla"]
    t = time.time()
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
        rc, out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        rc, out = 124, "timeout\n" + ((x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""))
    shutil.rmtree(d, ignore_errors=True)
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out):
        pass
    g = lambda k: int(m.group(k).replace(",", "")) if m else 0
    return dict(rc=rc, out=out, states=g(2), transitions=g(1), wall=time.time() - t)


def mc(module, cfg, workers=CPUS, timeout=840, env=None, heap=None, extra=()):
    """Model checking that has to succeed: a failure is an error of the specification, not of the code."""
    r = tlc(module, cfg, workers=workers, timeout=timeout, env=env, name="mc", heap=heap, extra=extra)
    if r["rc"] != 0:
        raise CheckError("model %s does not check:\n%s" % (module, r["out"][-3000:]))
    return r


# --------------------------------------------------------------------------- traces
def is_start(line):
    return line.startswith('{"ev":"load"') or line.startswith('{"ev":"begin"')


def runs_of(lines):
    out = []
    for l in lines:
        if is_start(l) or not out:
            out.append([])
        out[-1].append(l)
    return out


def read_trace(path):
    with open(path, errors="replace") as f:
        ls = [l.rstrip("\n") for l in f]
    good = []
    for l in ls:
        if not l.strip():
            continue
        good.append(l)
    # a crashing process may leave a torn line in front of its abort note
    for k, l in enumerate(good):
        try:
            json.loads(l)
        except ValueError:
            good[k] = None
    return [l for l in good if l is not None]


def tlc_trace(module, cfg, lines, name, timeout=800, heap=None):
    d = os.path.join(WORK, "tr")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d-%s.ndjson" % (name, os.getpid(), os.urandom(4).hex()))
    open(p, "w").write("\n".join(lines) + "\n")
    r = tlc(module, cfg, env={"TRACE": p}, timeout=timeout, name=name, heap=heap)
    os.unlink(p)
    m = re.search(r'<<"TRACE_RESULT", (\d+), (\d+)>>', r["out"])
    if r["rc"] == 0 and m and m.group(1) == m.group(2) and int(m.group(2)) == len(lines):
        r["acc"] = len(lines)
        return r
    if m and int(m.group(2)) == len(lines) and int(m.group(1)) < len(lines):
        r["acc"] = int(m.group(1))      # number of accepted lines
        r["why"] = "rejected"
        return r
    # an evaluation error while judging a line: the recorded values fall outside the types of the
    # specification. Bounded by the depth reached.
    if r["rc"] in (75, 76, 11, 12, 13, 150, 151, 152) or "Error: Evaluating" in r["out"] or "TLC threw an unexpected exception" in r["out"]:
        if "OutOfMemory" in r["out"] or "StackOverflow" in r["out"] or "ndJsonDeserialize" in r["out"]:
            raise CheckError("TLC failed on a trace (%s):\n%s" % (module, r["out"][-2500:]))
        st = len(re.findall(r"^State \d+:", r["out"], re.M))
        r["acc"] = None
        r["why"] = "ill-typed: " + " ".join(re.findall(r"Error: .*", r["out"])[:3])[:400]
        return r
    raise CheckError("TLC failed on a trace (%s, rc %s):\n%s" % (module, r["rc"], r["out"][-2500:]))


class Rejection:
    def __init__(self, job, run, k, why):
        self.job, self.run, self.k, self.why = job, run, k, why

    def event(self):
        return self.run[min(self.k, len(self.run) - 1)]


def validate(job, lines, chunk=400, maxrej=6, stop=lambda: False):
    """Validate a recorded trace, run by run. Returns (stats, [Rejection])."""
    runs = runs_of(lines)
    st = dict(states=0, transitions=0, traces=0, lines=0)
    rej = []
    mod, cfg = job["module"], job["cfg"]

    def go(rs):
        if not rs:
            return
        ls = [l for r in rs for l in r]
        r = tlc_trace(mod, cfg, ls, job["name"], timeout=job.get("timeout", 800), heap=job.get("heap"))
        st["states"] += r["states"]
        st["transitions"] += r["transitions"]
        st["lines"] += len(ls) if r["acc"] == len(ls) else (r["acc"] or 0)
        if r["acc"] == len(ls):
            st["traces"] += len(rs)
            return
        if r["acc"] is None:
            if len(rs) == 1:
                rej.append(Rejection(job, rs[0], len(rs[0]) - 1, r["why"]))
                return
            h = len(rs) // 2
            go(rs[:h])
            if len(rej) < maxrej:
                go(rs[h:])
            return
        k = r["acc"]
        for i, run in enumerate(rs):
            if k < len(run):
                st["traces"] += i
                rej.append(Rejection(job, run, k, r.get("why", "")))
                if len(rej) < maxrej:
                    go(rs[i + 1:])
                return
            k -= len(run)
    for i in range(0, len(runs), chunk):
        if len(rej) >= maxrej or stop():
            break
        go(runs[i:i + chunk])
    return st, rej


def run_harness(cmd, timeout=600, env=None, stdin=None):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0"
    e.update(env or {})
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, input=stdin, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return 124, "", "timeout"


# --------------------------------------------------------------------------- checks
class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.mcs = []
        self.states = self.transitions = self.traces = self.lines = 0
        self.mstates = self.mtrans = 0
        self.samples, self.stats = [], {}
        self.assumptions = []
        self.violations = []
        self.known = load_known(pid)
        self.hits = {}
        self.work = os.path.join(WORK, "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)

    def q(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def model(self, module, cfg, **kw):
        if self.violations:
            return dict(states=0, transitions=0, wall=0)
        r = mc(module, cfg, **kw)
        self.mstates += r["states"]
        self.mtrans += r["transitions"]
        self.mcs.append(dict(module=module, distinct=r["states"], generated=r["transitions"], wall_s=round(r["wall"], 1)))
        return r

    def note(self, key, d):
        t = self.stats.setdefault(key, {})
        for k, v in d.items():
            t[k] = t.get(k, 0) + v if isinstance(v, (int, float)) else v

    def jobs(self, js, timeout=700):
        """Each job: name, cmd (list, with '@OUT@'), module, cfg. Runs harness then TLC, 8 at a time."""
        import threading
        lock = threading.Lock()

        def one(j):
            if self.violations:
                return          # the answer is known: the remaining jobs would only repeat it
            out = os.path.join(self.work, j["name"] + ".ndjson")
            cmd = [c.replace("@OUT@", out) for c in j["cmd"]]
            if os.path.exists(out):
                os.unlink(out)
            rc, so, se = run_harness(cmd, timeout=j.get("htimeout", timeout), env=j.get("env"))
            if rc not in (0, 70, -6, -11, -8, -7, -14, 1, 134) or not os.path.exists(out):
                raise CheckError("harness %s failed with %s: %s %s" % (" ".join(cmd), rc, so[-500:], se[-1500:]))
            lines = read_trace(out)
            if rc != 0 and (not lines or '"abort"' not in lines[-1]):
                lines.append(json.dumps({"ev": "abort", "sig": rc}))
            j["stderr"] = se[-3000:]
            st, rej = validate(j, lines, chunk=j.get("chunk", 400), maxrej=6 if j.get("judge") else 2,
                               stop=lambda: bool(self.violations))
            try:
                stat = json.loads(so.strip().splitlines()[-1]) if so.strip() else {}
            except ValueError:
                stat = {}
            smp = runs_of(lines)
            os.unlink(out)
            smp = smp[len(smp) // 2] if smp else None
            with lock:
                self.states += st["states"]
                self.transitions += st["transitions"]
                self.traces += st["traces"]
                self.lines += st["lines"]
                self.note(j.get("group", "harness"), stat)
                if smp and len(self.samples) < 3:
                    self.samples.append([json.loads(l) if len(l) < 1500 else l[:1500] + "..." for l in smp[:6]])
                for r in rej:
                    self.judged = getattr(self, "judged", 0) + 1
                    if len(self.violations) < 2 and self.judged <= 60:
                        self.reject(r)
        with cf.ThreadPoolExecutor(CPUS) as tp:
            list(tp.map(one, js))

    def reject(self, r):
        # 1. does the run on its own get rejected again?
        st, rej = validate(r.job, r.run)
        if not rej:
            raise CheckError("a rejected run is accepted on its own: %s" % r.run[0][:300])
        # 2. is it reproduced by a fresh run of the harness?
        if not r.job.get("norerun"):
            out = os.path.join(self.work, r.job["name"] + ".again")
            cmd = [c.replace("@OUT@", out) for c in r.job["cmd"]]
            rc, so, se = run_harness(cmd, timeout=700, env=r.job.get("env"))
            lines = read_trace(out) if os.path.exists(out) else []
            # a program that seeds itself by the clock does not repeat its answer; what was
            # recorded from it is the evidence, unless it only says that the time was up
            if r.event() not in lines and '"abort"' not in r.event() and not r.why.startswith("ill"):
                if '"lost"' in r.event() or '"rc":2000' in r.event():
                    raise CheckError("a rejected run is not reproducible: %s" % r.event()[:300])
                r.why = (r.why + " (not repeated when run again)").strip()
            if os.path.exists(out):
                os.unlink(out)
        if r.job.get("judge"):
            v = r.job["judge"](self, r)
            if not v:
                self.note("rejections", {"belonging to another property": 1})
                return
        kf = self.match_known(r)
        if kf:
            self.hits[kf["id"]] = kf
            return
        self.violation(r)

    def match_known(self, r):
        text = "\n".join(r.run[:r.k + 1])
        for kf in self.known:
            if all(re.search(p, text) for p in kf["match"]) and (not kf.get("event") or re.search(kf["event"], r.event())):
                return kf
        return None

    def violation(self, r):
        os.makedirs(REPLAY, exist_ok=True)
        p = os.path.join(REPLAY, "%s-%s.json" % (self.pid, hashlib.sha1("\n".join(r.run).encode()).hexdigest()[:12]))
        json.dump(dict(property=self.pid, module=r.job["module"], cfg=r.job["cfg"], harness=r.job["cmd"],
                       env=r.job.get("env", {}), stderr=r.job.get("stderr", "")[-2000:],
                       why=r.why, rejected_event=r.event(), rejected_index=r.k, run=r.run,
                       how="the run is a recorded behaviour of the code; the specification module does not allow "
                           "the rejected event after the events before it"), open(p, "w"), indent=1)
        self.violations.append((p, r))

    def fail(self, name, info):
        """A violation that is not a rejected trace line (kept for completeness)."""
        os.makedirs(REPLAY, exist_ok=True)
        p = os.path.join(REPLAY, "%s-%s.json" % (self.pid, hashlib.sha1(json.dumps(info, sort_keys=True).encode()).hexdigest()[:12]))
        json.dump(dict(property=self.pid, kind=name, info=info), open(p, "w"), indent=1)
        self.violations.append((p, None))

    def finish(self):
        cov = dict(states=self.states + self.mstates, transitions=self.transitions + self.mtrans,
                   traces_validated_against_impl=self.traces, trace_events=self.lines,
                   trace_states=self.states, model_states=self.mstates, models=self.mcs,
                   harness=self.stats, samples=self.samples or ["none"])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations), assumptions=self.assumptions)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        p = os.path.join(ROOT, "evidence", self.pid + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.rename(p + ".tmp", p)
        shutil.rmtree(self.work, ignore_errors=True)
        for k, kf in sorted(self.hits.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, kf["what"]))
        for p, r in self.violations[:5]:
            if r is not None:
                print("rejected: %s (%s)" % (r.event()[:300], r.why))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("%s %s: %d traces, %d events, %d states, %.1fs" % (self.pid, self.tier, self.traces, self.lines,
              self.states + self.mstates, time.time() - self.t0))
        return 1 if self.violations else 0


def load_known(pid):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", []) if k["property"] == pid]

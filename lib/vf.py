"""Shared machinery of the checks: building harnesses from /repo's working
tree, running them, running TLC, known findings, evidence and verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = ":".join(p for p in [
    "/opt/veriftools/tla/tla2tools.jar",
    "/opt/veriftools/tla/CommunityModules-deps.jar",
    "/opt/veriftools/tla/CommunityModules.jar"] if os.path.exists(p))
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------- build
MPI = "/usr/lib/x86_64-linux-gnu/openmpi"
BASE_FLAGS = [
    "-std=c++17", "-w", "-g0", "-DFMT_HEADER_ONLY=1", "-DBOOST_LOG_DYN_LINK",
    "-DBOOST_ALL_NO_LIB", "-fno-strict-aliasing",
    "-DBOOST_ATOMIC_DYN_LINK", "-DBOOST_CHRONO_DYN_LINK",
    "-DBOOST_CONTAINER_DYN_LINK", "-DBOOST_FILESYSTEM_DYN_LINK",
    "-DBOOST_PROGRAM_OPTIONS_DYN_LINK", "-DBOOST_REGEX_DYN_LINK",
    "-DBOOST_SERIALIZATION_DYN_LINK", "-DBOOST_THREAD_DYN_LINK",
    "-isystem", MPI + "/include", "-isystem", MPI + "/include/openmpi",
    "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include/python3.12",
]
LIBS = ["-Wl,-rpath," + MPI + "/lib", MPI + "/lib/libmpi_cxx.so", MPI + "/lib/libmpi.so",
        "-lboost_container", "-lboost_log", "-lboost_chrono",
        "-lboost_filesystem", "-lboost_regex", "-lboost_thread",
        "-lboost_atomic", "-lboost_program_options", "-lboost_serialization",
        "/usr/lib/libVc.a", "-lpython3.12", "-lgmp", "-lmpfr", "-lgfortran",
        "-lquadmath", "-lpthread"]


def gen_config():
    """config.hpp as /repo's cmake would generate it (default options)."""
    src = os.path.join(REPO, "include/fub/config.hpp.in")
    out = os.path.join(BUILD, "gen/fub/config.hpp")
    values = {"FUB_WITH_TBB": "", "FUB_WITH_OPENMP": "",
              "FUB_DEFAULT_CHUNK_SIZE": "8"}
    lines = []
    for line in open(src):
        m = re.match(r"#cmakedefine\s+(\w+)(.*)", line)
        if m:
            if m.group(1) in values:
                line = "#define %s %s\n" % (m.group(1), values[m.group(1)])
            else:
                line = "/* #undef %s */\n" % m.group(1)
        lines.append(line)
    text = "".join(lines)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if not os.path.exists(out) or open(out).read() != text:
        tmp = out + ".%d" % os.getpid()
        open(tmp, "w").write(text)
        os.rename(tmp, out)


def _env():
    e = dict(os.environ)
    for k in ("CPATH", "CPLUS_INCLUDE_PATH", "LIBRARY_PATH", "CFLAGS",
              "CXXFLAGS", "LDFLAGS"):
        e.pop(k, None)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_SLOPPINESS"] = "time_macros"
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_COMPILERCHECK"] = "mtime"
    e["LC_ALL"] = "C"
    return e


def build(name, harness, repo_srcs=(), flags=(), libs=(), opt="-O1",
          compiler="g++"):
    """Compile harness/*.cpp together with the listed sources of /repo (from
    its working tree, with asserts active, as in its Debug build).  Returns the
    executable.  Always runs the compiler (ccache may answer when nothing it
    read has changed)."""
    gen_config()
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    inc = ["-I" + HARNESS, "-I" + REPO, "-I" + REPO + "/include",
           "-I" + BUILD + "/gen"]
    cc = ([ "ccache"] if shutil.which("ccache") else []) + [compiler]
    jobs = []
    # an entry of harness is a file or (file, flags): large harnesses are
    # compiled in parts, in parallel
    for s in list(harness) + ["version_stub.cpp"]:
        s, extra = s if isinstance(s, tuple) else (s, ())
        jobs.append((os.path.join(HARNESS, s), list(extra)))
    for s in repo_srcs:
        s, extra = s if isinstance(s, tuple) else (s, ())
        jobs.append((os.path.join(REPO, s), list(extra)))
    tag = hashlib.sha256((" ".join(flags) + opt + compiler).encode()).hexdigest()[:8]

    def one(job):
        src, extra = job
        rel = os.path.relpath(src, "/").replace("/", "_") + "".join(re.sub(r"\W", "", x) for x in extra)
        obj = os.path.join(BUILD, "obj", "%s.%s.%s.%d.o" % (name, rel, tag, os.getpid()))
        cmd = cc + BASE_FLAGS + [opt] + list(flags) + extra + inc + ["-c", src, "-o", obj]
        if src.endswith(".f"):
            cmd = ["gfortran", "-std=legacy", "-w", "-O1", "-c", src, "-o", obj]
        p = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        return src, obj, p

    objs = []
    with ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(one, jobs))
    for src, obj, p in results:
        objs.append(obj)
        if p.returncode != 0:
            raise CheckError("compiling %s failed:\n%s" % (src, p.stdout[-6000:]))
    exe = os.path.join(BUILD, "bin", "%s.%d" % (name, os.getpid()))
    p = subprocess.run([compiler] + list(flags) + ["-o", exe] + objs + list(libs) + LIBS,
                       env=_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    for o in objs:
        try: os.unlink(o)
        except OSError: pass
    if p.returncode != 0:
        raise CheckError("linking %s failed:\n%s" % (name, p.stdout[-6000:]))
    _tmpfiles.append(exe)
    return exe


_tmpfiles = []


def cleanup():
    for f in _tmpfiles:
        try: os.unlink(f)
        except OSError: pass


def workdir(prop, tier):
    d = os.path.join(BUILD, "work", prop + "." + tier + os.environ.get("VERIF_WORK", ""))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    return d


class RunResult:
    def __init__(self, rc, out, err, hung):
        self.rc, self.out, self.err, self.hung = rc, out, err, hung
    @property
    def crashed(self):
        return self.hung or self.rc != 0


def run(cmd, timeout=600, env=None, cwd=None):
    e = dict(os.environ)
    e.setdefault("OMPI_MCA_btl", "self,vader")
    e.setdefault("OMPI_ALLOW_RUN_AS_ROOT", "1")
    e.setdefault("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=1"
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout, env=e, cwd=cwd,
                           errors="replace")
        return RunResult(p.returncode, p.stdout, p.stderr, False)
    except subprocess.TimeoutExpired as x:
        dec = lambda b: b.decode(errors="replace") if isinstance(b, bytes) else (b or "")
        return RunResult(-99, dec(x.stdout), dec(x.stderr), True)


# ----------------------------------------------------------------------- TLC
class TLCResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.generated = self.distinct = self.depth = 0
        m = None
        for m in re.finditer(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out):
            pass
        if m:
            self.generated = int(m.group(1).replace(",", ""))
            self.distinct = int(m.group(2).replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m: self.depth = int(m.group(1))
        self.violated = re.findall(r"Invariant (\w+) is violated", out)
        self.violated += re.findall(r"Action property (\w+) is violated", out)
        if re.search(r"Temporal propert(y|ies) .*violated", out):
            self.violated.append("temporal")
        if "Deadlock reached" in out: self.violated.append("Deadlock")
        self.ok = rc == 0 and "No error has been found" in out
        # last state of the counterexample, as {var: text}
        self.last = {}
        parts = re.split(r"\nState \d+: ", out)
        if len(parts) > 1:
            for m in re.finditer(r"/\\ (\w+) = (.*?)(?=\n/\\ |\n\n|\Z)", parts[-1], re.S):
                self.last[m.group(1)] = m.group(2).strip()


def tlc(module, cfg, workers=None, env=None, timeout=800, extra=(), deadlock=False,
        heap="8g"):
    """Run TLC on spec/<module>.tla with config spec/<cfg>."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=_tlcdir())
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Xss16m", "-cp", JARS + ":" + num_jar(), "tlc2.TLC",
           "-workers", str(workers or NPROC), "-metadir", meta, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)]
    if not deadlock: cmd.append("-deadlock")
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ); e.pop("JAVA_TOOL_OPTIONS", None); e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout, env=e, cwd=SPEC, errors="replace")
        r = TLCResult(p.returncode, p.stdout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC on %s/%s: timeout" % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if not r.ok and not r.violated:
        raise CheckError("TLC on %s/%s failed (rc %s):\n%s" % (module, cfg, r.rc, r.out[-4000:]))
    return r


def _tlcdir():
    d = os.path.join(BUILD, "tlc"); os.makedirs(d, exist_ok=True); return d


def num_jar():
    """The Java counterpart of spec/Num.tla (arithmetic on decimal numbers),
    compiled when stale; its directory belongs on TLC's class path."""
    src, out = os.path.join(SPEC, "java", "Num.java"), os.path.join(BUILD, "java")
    cls = os.path.join(out, "Num.class")
    if not os.path.exists(cls) or os.path.getmtime(cls) < os.path.getmtime(src):
        tmp = tempfile.mkdtemp(prefix="java", dir=_tlcdir())
        p = subprocess.run(["javac", "-cp", JARS, "-d", tmp, src], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0: raise CheckError("compiling Num.java failed:\n" + p.stdout)
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(tmp): os.replace(os.path.join(tmp, f), os.path.join(out, f))
        shutil.rmtree(tmp, ignore_errors=True)
    return out


# ------------------------------------------------------------------- verdicts
def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f))["findings"]
            if k["property"] == prop and k["status"] == "open"]


class Check:
    """One run of one property's check."""
    def __init__(self, prop, level, tier=None):
        self.prop, self.level = prop, level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = workdir(prop, self.tier)
        self.violations = []
        self.known = []
        self.cov = {"states": 0, "transitions": 0,
                    "traces_validated_against_impl": 0, "samples": [],
                    "specs": []}
        self.assumptions = []

    @property
    def thorough(self): return self.tier == "thorough"

    def path(self, *a): return os.path.join(self.dir, *a)

    def violation(self, what, replay):
        """replay: JSON-serialisable description; written out and reported."""
        rdir = os.path.join(BUILD, "replay"); os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s.%d.json" % (self.prop, len(self.violations) + 1))
        json.dump({"property": self.prop, "what": what, "replay": replay,
                   "tier": self.tier, "seed": self.seed}, open(p, "w"), indent=1)
        self.violations.append((what, p))

    def model(self, module, cfg, must=(), **kw):
        """Exhaustive TLC run of the design specification.  A violated property
        here means the specification itself is wrong: an error of the check."""
        if os.environ.get("VERIF_DEV_SKIP_DESIGN"): return None
        r = tlc(module, cfg, **kw)
        if not r.ok:
            raise CheckError("the design specification %s/%s violates %s:\n%s"
                             % (module, cfg, r.violated, r.out[-4000:]))
        self.cov["states"] += r.distinct
        self.cov["transitions"] += r.generated
        self.cov["specs"].append({"module": module, "config": cfg, "role": "design, exhaustive",
                                  "distinct": r.distinct, "generated": r.generated, "depth": r.depth})
        return r

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.violations:
            print("# " + what.replace("\n", " ")[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if not self.violations:
            print("OK property=%s tier=%s wall=%.1fs traces=%d states=%d" % (
                self.prop, self.tier, ev["wall_s"],
                self.cov.get("traces_validated_against_impl", 0), self.cov.get("states", 0)))
        sys.stdout.flush()
        return 1 if self.violations else 0


def validate(chk, module, cfg, tracefile, prop_clauses, describe=None, env=None,
             timeout=800, replay_extra=None, max_report=3, parts=None):
    """Validate all traces in an ndjson file with a trace specification.

    The trace specification has the variables tid (line of the trace), l (next
    event) and bad (set of names of clauses that the consumed events break) and
    its config checks an invariant saying that `bad` contains no clause of this
    property.  A violation is re-validated on its own before it is reported."""
    with open(tracefile) as f: lines = f.readlines()
    n = len(lines)
    if n == 0: raise CheckError("no traces in " + tracefile)
    e = {"TRACES": tracefile}; e.update(env or {})
    r = tlc(module, cfg, env=e, timeout=timeout)
    chk.cov["specs"].append({"module": module, "config": cfg, "role": "trace validation",
                             "traces": n, "distinct": r.distinct, "generated": r.generated})
    chk.cov["states"] += r.distinct
    chk.cov["transitions"] += r.generated
    chk.cov["traces_validated_against_impl"] += n
    reported = 0
    skip = set()
    while not r.ok and reported < max_report:
        tid = int(r.last.get("tid", "0"))
        bad = r.last.get("bad", "?")
        trace = json.loads(lines[tid - 1]) if tid else None
        # a second run on that trace alone has to repeat the rejection
        one = chk.path("reject.ndjson")
        open(one, "w").write(lines[tid - 1])
        e1 = dict(e); e1["TRACES"] = one
        r1 = tlc(module, cfg, env=e1, timeout=timeout)
        if r1.ok: raise CheckError("rejection of trace %d not repeatable" % tid)
        at = int(r.last.get("l", "1"))
        what = "%s: trace %d breaks %s at event %d" % (module, tid, bad, at - 1)
        if describe: what += " " + describe(trace)
        chk.violation(what, {"trace": trace, "clauses": bad, "event": at - 1,
                             "tlc_last_state": r.last, "extra": replay_extra,
                             "how": "TRACES=<file holding the trace as one line> tlc -config spec/%s spec/%s.tla" % (cfg, module)})
        reported += 1
        break
    return r

"""Common machinery of the checks: incremental build against /repo, TLC runs, trace validation, evidence, verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
RUN = os.environ.get("VERIF_RUN", os.path.join(VERIF, "run"))
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
NCPU = max(1, min(8, len(os.sched_getaffinity(0))))


class CheckError(Exception):
    """The machinery itself failed: neither 'holds' nor 'violated'."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------------------------------------------- build
def _hash_tree():
    h = {}
    for root in ("src", "include"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            for f in files:
                if f.endswith((".cpp", ".hpp", ".tbl", ".h")):
                    p = os.path.join(d, f)
                    with open(p, "rb") as fh:
                        h[p] = hashlib.sha1(fh.read()).hexdigest()
    return h


def build(*targets, timeout=850):
    """Brings the given driver binaries up to date with /repo's working tree.  Content hashes decide what changed, so
    that copies of the tree with odd modification times cannot leave a stale object behind."""
    os.makedirs(BUILD, exist_ok=True)
    db = os.path.join(BUILD, "hashes.json")
    new = _hash_tree()
    old = {}
    if os.path.exists(db):
        try:
            old = json.load(open(db))
        except Exception:
            old = {}
    now = time.time()
    for p, h in new.items():
        if old and old.get(p) != h:
            try:
                os.utime(p, (now, now))     # content differs from what was last seen: whatever depends on it is stale
            except OSError:
                pass
    with open(db + ".tmp", "w") as f:
        json.dump(new, f)
    os.replace(db + ".tmp", db)
    env = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="2G", LANG="C.UTF-8",
               CCACHE_SLOPPINESS="include_file_mtime,include_file_ctime,time_macros", CCACHE_NOHASHDIR="1")
    env.pop("LC_ALL", None)
    if not os.path.exists(os.path.join(BUILD, "build.ninja")):
        cmd = ["cmake", "-S", os.path.join(VERIF, "harness"), "-B", BUILD, "-G", "Ninja",
               "-DCMAKE_C_COMPILER=clang-18", "-DCMAKE_CXX_COMPILER=clang++-18", "-DREPO=" + REPO]
        if shutil.which("ccache"):
            cmd += ["-DCMAKE_CXX_COMPILER_LAUNCHER=ccache"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
        if r.returncode:
            raise CheckError("cmake failed:\n" + r.stdout[-3000:])
    r = subprocess.run(["ninja", "-C", BUILD, *targets], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, env=env)
    if r.returncode:
        raise CheckError("build failed:\n" + r.stdout[-6000:])
    return [os.path.join(BUILD, t) for t in targets]


def workdir(name):
    d = os.path.join(RUN, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    return d


def run_driver(binary, args, wd, timeout=300, env=None, stdin=None, check=True, cwd=None):
    """Runs a driver; returns (rc, stdout, stderr, timed_out)."""
    e = dict(os.environ)
    e["VERIF_SEED"] = str(SEED)
    e["LANG"] = "C.UTF-8"
    if env:
        e.update({k: str(v) for k, v in env.items()})
    try:
        r = subprocess.run([os.path.join(BUILD, binary)] + [str(a) for a in args], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd or wd, input=stdin)
    except subprocess.TimeoutExpired as ex:
        return (None, ex.stdout or b"", ex.stderr or b"", True)
    return (r.returncode, r.stdout, r.stderr, False)


# ------------------------------------------------------------------------------------------------------------------ TLC
class TLCResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.states = self.distinct = 0
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            self.states = int(m[-1][0].replace(",", ""))
            self.distinct = int(m[-1][1].replace(",", ""))
        self.violated = None
        for pat in (r"Invariant (\S+) is violated", r"Action property (.*?) is violated",
                    r"Temporal properties were violated", r"Deadlock reached", r"Postcondition (\S+)",
                    r"The postcondition"):
            mm = re.search(pat, out)
            if mm:
                self.violated = mm.group(0)
                break
        self.ok = rc == 0 and "Model checking completed. No error has been found" in out or \
            (rc == 0 and "The number of states generated" in out and not self.violated)
        self.prints = [l for l in out.splitlines() if l.startswith("@@")]

    def actions(self):
        """Per-action counts, from -coverage: {name: (distinct, taken)}"""
        res = {}
        for m in re.finditer(r"^<(\w+) line \d+, col \d+ to line \d+, col \d+ of module (\w+)[^>]*>: (\d+):(\d+)",
                             self.out, re.M):
            a = res.setdefault(m.group(1), [0, 0])
            a[0] = max(a[0], int(m.group(3)))
            a[1] = max(a[1], int(m.group(4)))
        return res


def tlc(module, cfg=None, env=None, workers=None, timeout=600, extra=(), coverage=False, wd=None, heap="4g", simulate=None,
        depth=None):
    wd = wd or workdir("tlc_" + module)
    meta = os.path.join(wd, "states_%s_%d" % (module, int(time.time() * 1e6)))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp",
           JAR + ":" + os.path.join(os.path.dirname(JAR), "CommunityModules-deps.jar"), "tlc2.TLC",
           "-workers", str(workers or NCPU), "-metadir", meta, "-noTE", "-config", cfg or (module + ".cfg")]
    if coverage:
        cmd += ["-coverage", "1"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-seed", str(SEED)]
        if depth:
            cmd += ["-depth", str(depth)]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TLCResult(r.stdout, r.returncode, time.time() - t0)
    return res


def model_check(module, cfg=None, expect_actions=(), **kw):
    """Design-level model checking: the specification itself must satisfy its properties (a failure is an error of the
    machinery, never a verdict about the code)."""
    r = tlc(module, cfg, coverage=bool(expect_actions), **kw)
    if not r.ok:
        raise CheckError("model checking of %s failed (rc %s, %s):\n%s" % (module, r.rc, r.violated, r.out[-4000:]))
    if expect_actions:
        acts = r.actions()
        for a in expect_actions:
            if a not in acts or acts[a][1] == 0:
                raise CheckError("vacuous model: action %s of %s never taken (%s)" % (a, module, acts))
    return r


def validate(module, tracefile, cfg=None, **kw):
    """Trace validation.  Returns (TLCResult, None) if every trace is a behaviour of the specification, or
    (TLCResult, text) with TLC's counterexample if one is rejected."""
    env = dict(kw.pop("env", {}) or {})
    env["TRACE"] = tracefile
    r = tlc(module, cfg, env=env, **kw)
    if r.ok:
        return r, None
    if r.violated:
        return r, r.out
    raise CheckError("trace validation with %s failed to run (rc %s):\n%s" % (module, r.rc, "\n".join(l[:500] for l in r.out.splitlines() if not l.startswith(("  ", "/\\"))) + "\n" + r.out[-1500:]))


def rejected_at(out):
    """(tid, l) of the last state of TLC's error trace."""
    tid = re.findall(r"^/?\\?\s*/\\ tid = (\d+)|^\s*tid = (\d+)", out, re.M)
    l = re.findall(r"^/?\\?\s*/\\ l = (\d+)|^\s*l = (\d+)", out, re.M)
    f = lambda x: int([y for y in x[-1] if y][0]) if x else None
    return f(tid), f(l)


# -------------------------------------------------------------------------------------------------------------- verdict
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.known = self._load_known()
        self.known_hit = []
        self.violations = []
        self.wd = workdir(pid)

    def _load_known(self):
        res = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line and not line.startswith("#") and line.startswith("{"):
                    k = json.loads(line)
                    if k.get("property") == self.pid and k.get("status") == "known":
                        res.append(k)
        return res

    def model(self, r):
        self.states += r.distinct
        self.transitions += r.states

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s if len(json.dumps(s)) < 3000 else str(s)[:3000])

    def violation(self, what, replay):
        """Records a violation; `replay` is a dict or str stored as the replay file."""
        p = os.path.join(self.wd, "violation_%d.json" % len(self.violations))
        with open(p, "w") as f:
            if isinstance(replay, str):
                f.write(replay)
            else:
                json.dump(replay, f, indent=1)
        self.violations.append((what, p))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["(none)"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2),
              "assumptions": self.assumptions, "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        if self.violations:
            for what, p in self.violations[:5]:
                print("violated: " + what)
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0][1]))
            sys.stdout.flush()
            sys.exit(1)
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.pid, self.states, self.traces,
                                                                 time.time() - self.t0))
        sys.exit(0)


def record_many(binary, wd, arglists, timeout=300, env=None, jobs=None, stdin=None):
    """Runs the driver once per argument list (in parallel), each writing traces to its own file, passed as first
    argument.  Returns (traces, stats, abnormal): all traces in order, the JSON objects printed on stdout, and a list of
    (args, rc, timed_out, stderr) of runs that ended neither normally nor through the crash handler."""
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        out = os.path.join(wd, "rec_%d.ndjson" % i)
        rc, so, se, to = run_driver(binary, [out, *arglists[i]], wd, timeout=timeout, env=env,
                                    stdin=stdin[i] if stdin else None)
        tr = []
        if os.path.exists(out):
            for line in open(out, errors="surrogateescape"):
                try:
                    tr.append(json.loads(line))
                except ValueError:
                    pass
            os.unlink(out)
        st = None
        if rc == 0:
            try:
                st = json.loads(so.decode().strip().splitlines()[-1])
            except Exception:
                st = None
        ab = None if rc in (0, 42) else (list(map(str, arglists[i])), rc, to, se[-2000:].decode(errors="replace"))
        return tr, st, ab
    with ThreadPoolExecutor(jobs or NCPU) as ex:
        res = list(ex.map(one, range(len(arglists))))
    traces, stats, abnormal = [], [], []
    for tr, st, ab in res:
        traces += tr
        if st is not None:
            stats.append(st)
        if ab is not None:
            abnormal.append(ab)
    return traces, stats, abnormal


def write_traces(path, traces):
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t) + "\n")
    return path


def validate_traces(c, module, traces, cfg=None, limit=3, chunk=None, **kw):
    """Validates traces against the trace specification `module`; returns rejected ones as (trace, position, tlc output).
    Adds to the coverage of check `c`.  Rejected traces are dropped and the rest re-validated, up to `limit` times."""
    bad, rest = [], list(traces)
    first = True
    while rest and len(bad) < limit:
        p = write_traces(os.path.join(c.wd, module + ".ndjson"), rest)
        r, ce = validate(module, p, cfg, wd=c.wd, **kw)
        if first:
            c.model(r)
            c.traces += len(rest)
            first = False
        if not ce:
            break
        tid, l = rejected_at(ce)
        if not tid:
            raise CheckError("cannot locate the rejected trace:\n" + ce[-3000:])
        bad.append((rest[tid - 1], l, ce[-6000:]))
        del rest[tid - 1]
    return bad


def conformance(c, driver, module, arglists, cfg=None, timeout=300, keep=None, limit=3, label=lambda t: t.get("kind", ""),
                edit=None, **kw):
    """The usual code-level half of a check: runs the driver over the argument lists, then validates everything it recorded
    against the trace specification.  A run that dies or hangs outside its own crash handler counts as a crash event."""
    traces, stats, abnormal = record_many(driver, c.wd, arglists, timeout=timeout)
    for a, rc, to, se in abnormal:
        if rc == 3 or rc == 127:
            raise CheckError("driver %s %s failed: rc=%s %s" % (driver, a, rc, se))
        traces.append({"kind": "run " + " ".join(a), "ev": [["crash", "rc %s%s %s" % (rc, " (timeout)" if to else "", se[-300:])]]})
    if not traces:
        raise CheckError("driver %s recorded nothing" % driver)
    if keep:
        traces = [t for t in traces if keep(t)]
    if edit:
        for t in traces:
            edit(t)
    tot = {}
    for s in stats:
        for k, v in s.items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    c.extra.setdefault("drivers", {})[driver] = tot
    for t in traces[:2]:
        c.sample({"kind": label(t), "ev": t["ev"][:12]})
    for t, l, ce in validate_traces(c, module, traces, cfg, limit=limit, **kw):
        e = json.dumps(t["ev"][l - 1]) if l and l <= len(t["ev"]) else "?"
        c.violation("%s: event %s (number %s) is not allowed by %s" % (label(t), e[:600], l, module), {"trace": t, "position": l, "tlc": ce})
    return traces, tot

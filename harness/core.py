"""Common machinery of the checks: builds the Java operator overrides, runs
TLC on a specification, replays its behaviours into the real library in
parallel worker processes, and reports."""
import contextlib
import fcntl
import io
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MAXLIKE_REPO", "/repo")
CLASSES = os.path.join(ROOT, "build", "classes")
JARS = ["/opt/veriftools/tla/tla2tools.jar",
        "/opt/veriftools/tla/CommunityModules-deps.jar"]


def ensure_java():
    """Compiles java/*.java into build/classes when missing or stale."""
    src = os.path.join(ROOT, "java")
    files = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".java"))
    os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
    with open(os.path.join(ROOT, "build", "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(CLASSES, ".stamp")
        want = "".join("%s %d\n" % (f, hash_file(f)) for f in files)
        if os.path.exists(stamp) and open(stamp).read() == want:
            return
        tmp = CLASSES + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        subprocess.run(["javac", "-cp", JARS[0], "-d", tmp] + files, check=True)
        with open(os.path.join(tmp, ".stamp"), "w") as f:
            f.write(want)
        shutil.rmtree(CLASSES, ignore_errors=True)
        os.rename(tmp, CLASSES)


def hash_file(f):
    import zlib
    with open(f, "rb") as h:
        return zlib.crc32(h.read())


class SpecError(Exception):
    """The specification itself failed (a defect of this machinery)."""


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def time_limit(seconds):
    def handler(signum, frame):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def tla_value(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla_value(x) for x in sorted(v)) + "}"
    return '"%s"' % v


def _init_worker():
    os.environ["OMP_NUM_THREADS"] = "1"
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    sys.stdout = io.StringIO()


_JOBS = None            # (func, traces, limit), inherited by the workers


def _replay_one(k):
    func, traces, limit = _JOBS
    trace = traces[k]
    try:
        with time_limit(limit):
            return func(trace)
    except Timeout:
        return {"fail": "the replay did not terminate within %g s" % limit}
    except Exception as e:
        if raised_inside(e):
            return {"fail": "an accepted request raised %s: %s" % (type(e).__name__, e)}
        return {"fail": "harness: " + traceback.format_exc(), "harness": True}


def raised_inside(e):
    """whether an exception left a call of the library (and not the harness)"""
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    last = max([k for k, f in enumerate(frames) if f.startswith(here)], default=-1)
    return any(os.sep + "maxlike" + os.sep in f for f in frames[last + 1:])


def _replay_group(g):
    res = []
    for k in range(*g):
        res.append(_replay_one(k))
        if "fail" in (res[-1] or {}):
            break
    return res


class Fail(Exception):
    """A disagreement between the specification and the implementation.
    ``key`` is the identity by which known findings are recognised."""

    def __init__(self, msg, key=None, step=None):
        Exception.__init__(self, msg)
        self.key = key
        self.step = step


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.states = 0
        self.distinct = 0
        self.traces = 0
        self.cov = {}
        self.samples = []
        self.violations = []
        self.known = {}
        self.assumptions = []
        self.tmp = tempfile.mkdtemp(prefix="mlverif-")
        self.runs = []
        self.ops = {}
        self.findings = load_findings(prop)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)

    # -- specification -----------------------------------------------------
    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def tlc(self, module, consts, invariants=(), properties=(), spec="Spec",
            timeout=700, workers=8, constraint=None, note=None, out=True):
        """Runs TLC on spec/<module>.tla; returns the emitted JSON records."""
        ensure_java()
        n = len(self.runs)
        work = os.path.join(self.tmp, "r%d" % n)
        os.makedirs(work)
        outf = os.path.join(work, "out.jsonl")
        if out:
            consts = dict(consts, OutFile=outf)
        cfg = os.path.join(work, "m.cfg")
        with open(cfg, "w") as f:
            f.write("SPECIFICATION %s\n" % spec)
            if consts:
                f.write("CONSTANTS\n")
                for k, v in consts.items():
                    f.write("  %s = %s\n" % (k, tla_value(v)))
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for i in properties:
                f.write("PROPERTY %s\n" % i)
            if constraint:
                f.write("CONSTRAINT %s\n" % constraint)
            f.write("CHECK_DEADLOCK FALSE\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx12g",
               "-cp", ":".join([CLASSES] + JARS), "tlc2.TLC", "-workers", str(workers),
               "-noGenerateSpecTE", "-metadir", os.path.join(work, "meta"),
               "-config", cfg, os.path.join(ROOT, "spec", module + ".tla")]
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, cwd=work)
        except subprocess.TimeoutExpired:
            raise SpecError("TLC exceeded %d s on %s" % (timeout, module))
        text = p.stdout.decode(errors="replace")
        text = "\n".join(l for l in text.split("\n")
                         if not re.match(r"(Loading|Parsing|Semantic|Linting|Warning)", l))
        if p.returncode != 0 or "No error has been found" not in text:
            raise SpecError("TLC failed on %s %s\n%s" % (module, consts, text[:1500] + "\n...\n" + text[-800:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)[-1]
        self.states += int(m[1])
        self.distinct += int(m[0])
        rec = {"module": module, "constants": {k: v if not isinstance(v, (set, frozenset)) else sorted(v)
                                               for k, v in consts.items() if k != "OutFile"},
               "states": int(m[1]), "transitions": int(m[0]),
               "invariants": list(invariants) + list(properties),
               "wall_s": round(time.time() - t, 2)}
        self.runs.append(rec)
        res = []
        if out:
            if not os.path.exists(outf):
                raise SpecError("TLC emitted nothing for %s" % module)
            with open(outf) as f:
                res = [json.loads(l) for l in f]
            os.remove(outf)
        rec["emitted"] = len(res)
        shutil.rmtree(work, ignore_errors=True)
        return res

    # -- implementation ----------------------------------------------------
    def replay(self, traces, func, limit=20, procs=8, chunk=None, describe=None):
        """func(trace) -> None | {"fail":..., "key":..., "ops": {...}}"""
        global _JOBS
        if not traces:
            raise SpecError("no behaviour to replay")
        _JOBS = (func, traces, limit)
        ctx = mp.get_context("fork")
        sys.stdout.flush()
        if chunk is None:
            chunk = max(1, min(50, len(traces) // (procs * 4)))
        out = []
        with ctx.Pool(procs, initializer=_init_worker) as pool:
            groups = [(k, min(k + chunk, len(traces))) for k in range(0, len(traces), chunk)]
            it = pool.imap(_replay_group, groups)

            def results():
                for g in groups:
                    try:
                        rs = it.next(timeout=600)
                    except mp.TimeoutError:
                        raise SpecError("a replay worker died")
                    for k, r in zip(range(*g), rs):
                        yield traces[k], r or {}
            for t, r in results():
                out.append(r)
                self.traces += 1
                for k, v in r.get("ops", {}).items():
                    self.ops[k] = self.ops.get(k, 0) + v
                if r.get("harness"):
                    raise SpecError(r["fail"] + json.dumps(t)[:3000])
                for kf in r.get("known", ()):
                    self.known_hit(kf, r)
                if "fail" in r:
                    self.report(r["fail"], t, r.get("key"), r.get("step"))
                    if len(self.violations) >= 3:
                        break
        return out

    def known_hit(self, key, r=None):
        if key not in self.findings:
            raise SpecError("finding %s is not listed" % key)
        self.known[key] = self.known.get(key, 0) + 1

    def report(self, msg, trace, key=None, step=None):
        if key is not None and key in self.findings:
            self.known[key] = self.known.get(key, 0) + 1
            return
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                       "message": msg, "step": step, "trace": trace}, f)
        self.violations.append(path)
        print("  %s: %s" % (self.prop, msg.strip().replace("\n", "\n    ")[:1500]))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        sys.stdout.flush()

    # -- report --------------------------------------------------------------
    def finish(self, samples=(), **cov):
        for key in self.findings:
            if self.known.get(key):
                print("KNOWN-FINDING: property=%s %s" % (self.prop, self.findings[key]))
            elif not self.violations:
                print("note: the listed finding '%s' was not observed" % key)
        coverage = {"states": self.states, "transitions": self.distinct,
                    "traces_validated_against_impl": self.traces,
                    "samples": list(samples)[:3] or self.samples[:3],
                    "tlc_runs": self.runs,
                    "known_findings_observed": self.known}
        if self.ops:
            coverage["operations_compared"] = dict(sorted(self.ops.items()))
        coverage.update(cov)
        text = json.dumps({
            "property": self.prop, "tier": self.tier, "seed": self.seed,
            "level": self.level, "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations)}, indent=1)
        if len(text) > 60000:
            coverage["samples"] = [json.dumps(x)[:3000] for x in coverage["samples"]]
            text = json.dumps({"property": self.prop, "tier": self.tier, "seed": self.seed,
                               "level": self.level, "coverage": coverage,
                               "assumptions": self.assumptions,
                               "wall_s": round(time.time() - self.t0, 2),
                               "violations": len(self.violations)}, indent=1)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            f.write(text + "\n")
        print("%s: %d states, %d transitions, %d behaviours replayed, %d violations, %.1f s"
              % (self.prop, self.states, self.distinct, self.traces,
                 len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def load_findings(prop):
    """known_findings.jsonl: entries with status "open" suppress exactly their
    own key; entries with status "fixed" suppress nothing."""
    path = os.path.join(ROOT, "known_findings.jsonl")
    res = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                e = json.loads(line)
                if e.get("status") == "open" and e["property"] == prop:
                    res[e["key"]] = e["what"]
    return res


# -- helpers shared by the replayers -------------------------------------------
def num(v):
    return float(v)


def arr(a):
    import numpy as np
    return np.array([float(x) for x in a["v"]], dtype=float).reshape(tuple(a["sh"]))


def close_arrays(got, want, tol=1e-9, scale=None):
    """elementwise comparison relative to the scale of the expected array"""
    import numpy as np
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return "shape %s instead of %s" % (got.shape, want.shape)
    if got.size == 0:
        return None
    s = max(1.0, float(np.max(np.abs(want)))) if scale is None else scale
    d = np.abs(got - want)
    bad = ~(d <= tol * s)
    if bad.any():
        ix = tuple(int(k) for k in np.argwhere(bad)[0])
        return "%d of %d cells differ, first at %s: got %r, expected %r" % (
            int(bad.sum()), got.size, ix, float(got[ix]), float(want[ix]))
    return None


def main(prop, func, level="model_checking"):
    c = Check(prop, level)
    try:
        return func(c)
    except SpecError as e:
        print("ERROR %s: %s" % (prop, e))
        return 2
    except Exception:
        print("ERROR %s: %s" % (prop, traceback.format_exc()))
        return 2
    finally:
        c.close()

"""Framework of the checks: scratch space, TLC, the confirm-by-rerun rule, evidence."""
import os
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
import argparse
import concurrent.futures as cf
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B  # noqa: E402

SPEC = os.path.join(VERIF, "spec")
TJ = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = min(8, os.cpu_count() or 8)


class MachineryError(Exception):
    pass


class TlcResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.lines = []
        # PrintT of a string is quoted
        for ln in out.splitlines():
            if ln.startswith('"@@'):
                self.lines.append(json.loads(json.loads(ln)[2:]))
        self.error = None
        if rc != 0:
            self.error = "\n".join(l for l in out.splitlines() if not l.startswith(('"@@', "Loading", "Computed", "Parsing",
                                                                                  "Semantic")))[-3000:]
        self.violated = re.findall(r"(?:Invariant|property) (\w+) (?:is|was) violated", out)


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        self._build = None
        self._java = None
        self.guard = True           # build with memory checks
        self.violations = []        # (what, replay record)
        self.known_hit = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.notes = []
        self.known = load_known(prop)
        self.ntlc = 0
        self.lock = threading.Lock()

    # ---------------------------------------------------------------- tools
    @property
    def build(self):
        if self._build is None:
            self._build = B.Build(self.scratch, guard=self.guard)
        return self._build

    def bin(self, name):
        key = "_bin_" + name
        if not hasattr(self, key):
            b = self.build
            setattr(self, key, b.solve() if name == "pomdp-solve" else b.tools())
        return getattr(self, key)

    def rng(self, salt=""):
        return random.Random("%s/%s/%s" % (self.seed, self.prop, salt))

    def thorough(self):
        return self.tier == "thorough"

    def java(self):
        if self._java is None:
            d = os.path.join(self.scratch, "java")
            os.makedirs(d, exist_ok=True)
            src = [os.path.join(VERIF, "java", f) for f in sorted(os.listdir(os.path.join(VERIF, "java")))
                   if f.endswith(".java")]
            p = subprocess.run(["javac", "-nowarn", "-cp", TJ, "-d", d, *src], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
            if p.returncode:
                raise MachineryError("javac: " + p.stdout.decode()[-2000:])
            self._java = d
        return self._java

    def tlc(self, module, cfg, env=None, workers=JOBS, timeout=800, extra=(), expect_ok=False, count=True,
            files=()):
        """Runs TLC on spec/<module>.tla with the configuration text cfg."""
        with self.lock:
            self.ntlc += 1
            d = os.path.join(self.scratch, "tlc%d" % self.ntlc)
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for name, text in files:
            with open(os.path.join(d, name), "w") as f:
                f.write(text)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-cp", self.java() + ":" + TJ, "tlc2.TLC",
               "-metadir", os.path.join(d, "md"), "-workers", str(workers), "-noGenerateSpecTE",
               "-config", "M.cfg", *extra, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
            out, rc = p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as x:
            raise MachineryError("TLC %s: no answer in %d s" % (module, timeout))
        r = TlcResult(out, rc)
        if count:
            self.states += r.distinct
            self.transitions += r.generated
        if expect_ok and rc != 0:
            raise MachineryError("TLC %s: %s" % (module, r.error))
        shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
        return r

    # ------------------------------------------------------------- verdicts
    def violation(self, what, record):
        """Registers a confirmed violation, unless it is a listed finding."""
        for k in self.known:
            if k["match"] in what:
                if k not in self.known_hit:
                    self.known_hit.append(k)
                return False
        self.violations.append((what, record))
        return True

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if len(json.dumps(s)) < 1500 else json.dumps(s)[:1500])

    def finish(self, level, coverage=None):
        for k in self.known:
            # a listed finding is reported whether or not this run met it
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        cov = dict(self.cov)
        cov.update(coverage or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:6], **cov},
              "wall_s": round(time.time() - self.t0, 1)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, (what, rec) in enumerate(self.violations[:5]):
                path = os.path.join(rd, "%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "what": what, "record": rec}, f, indent=1)
                print("%s: %s" % (self.prop, what[:600]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        print("%s held: %d states, %d executions, %.0f s" % (self.prop, self.states, self.traces,
                                                              time.time() - self.t0))
        return 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("{"):
                k = json.loads(ln)
                if k["property"] == prop:
                    out.append(k)
    return out


# --------------------------------------------------------------------- running
class Ran:
    def __init__(self, rc, out, timeout):
        self.rc, self.out, self.timeout = rc, out, timeout

    @property
    def status(self):
        """exit status as one string: 0.., "signal N", "timeout" """
        if self.timeout:
            return "timeout"
        return "signal %d" % -self.rc if self.rc < 0 else str(self.rc)


def run(cmd, cwd, timeout=20, stdin=b"", env=None, limit=4 << 20, enough=None):
    e = dict(os.environ)
    e.update(env or {})
    e["LC_ALL"] = "C"
    outp = os.path.join(cwd, ".out%d" % random.randrange(10 ** 9))
    with open(outp, "wb") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE, stdout=f, stderr=subprocess.STDOUT,
                             start_new_session=True)
        to = False
        try:
            try:
                p.stdin.write(stdin)
                p.stdin.close()
            except BrokenPipeError:
                pass
            if enough is None:
                p.wait(timeout)
            else:
                # stopped early, once what it wrote is all that is looked at
                end = time.time() + timeout
                while True:
                    try:
                        p.wait(.3)
                        break
                    except subprocess.TimeoutExpired:
                        if time.time() > end or enough(outp):
                            raise
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    with open(outp, "rb") as f:
        out = f.read(limit).decode("latin-1")
    os.unlink(outp)
    return Ran(p.returncode, out, to)


_PF = None


def _pcall(x):
    random.seed()
    return _PF(x)


def pmap(f, xs, jobs=JOBS):
    """map in forked processes (f may be a closure)"""
    global _PF
    xs = list(xs)
    if len(xs) <= 2:
        return [f(x) for x in xs]
    _PF = f
    with multiprocessing.get_context("fork").Pool(jobs) as pool:
        return pool.map(_pcall, xs, chunksize=max(1, min(8, len(xs) // (jobs * 4) or 1)))


# ------------------------------------------------------- conformance of traces
def undefined(r):
    """TLC stopped because an expression of the specification has no value for a recorded execution"""
    return "Computing initial states" in r.out and re.search(
        r"(?i)attempted to|outside of the domain|not in the domain|NumberFormat|evaluating|unexpected exception", r.out) \
        and not re.search(r"OutOfMemory|StackOverflow|Java heap|ran out of memory", r.out)


def culprit(ctx, module, recs, cfg, timeout):
    """index of one record on which TLC stops, or None"""
    lo, hi = 0, len(recs)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        fn = os.path.join(ctx.scratch, "cut%d.ndjson" % ctx.ntlc)
        with open(fn, "w") as f:
            for x in recs[lo:mid]:
                f.write(json.dumps(x) + "\n")
        r = ctx.tlc(module, cfg, env={"TRACE": fn}, timeout=timeout, count=False)
        if r.rc == 0:
            lo = mid
        elif undefined(r):
            hi = mid
        else:
            return None
    return lo


def validate(ctx, module, recs, cfg=None, consts="", timeout=800, count=True):
    """Checks recorded executions against a trace specification.

    The specification reads the file named by the environment variable TRACE
    (one JSON record per line), and prints for every rejected step the record
    @@{"bad": clause, "c": index, ...}.  Returns a list (per record) of lists
    of rejections."""
    if not recs:
        return []
    fn = os.path.join(ctx.scratch, "trace%d.ndjson" % ctx.ntlc)
    with open(fn, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
    cfg = cfg or ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION AllConsumed\n" + consts)
    r = ctx.tlc(module, cfg, env={"TRACE": fn}, timeout=timeout, count=count)
    if r.rc != 0:
        if undefined(r):
            # an execution so far from the specification that its clauses have no value
            j = culprit(ctx, module, recs, cfg, timeout)
            if j is not None:
                return [[{"bad": "malformed", "c": i + 1, "why": r.error[:300]}] if i == j else []
                        for i in range(len(recs))]
        raise MachineryError("TLC %s: %s" % (module, r.error))
    bad = [[] for _ in recs]
    done = 0
    for x in r.lines:
        if "bad" in x:
            bad[x["c"] - 1].append(x)
        elif "done" in x:
            done += 1
    if done != len(recs):
        raise MachineryError("TLC %s consumed %d of %d records" % (module, done, len(recs)))
    os.unlink(fn)
    return bad


def conform(ctx, module, inputs, runner, clauses=None, consts="", describe=None, chunk=4000, timeout=800,
            deadline=None):
    """Runs the implementation on every input, validates the executions, and
    registers the violations that a second run and validation repeats."""
    n = 0
    for k in range(0, len(inputs), chunk):
        part = inputs[k:k + chunk]
        t1 = time.time()
        recs = pmap(runner, part)
        t2 = time.time()
        keep = [(i, r) for i, r in zip(part, recs) if r is not None]
        recs = [r for _, r in keep]
        bad = validate(ctx, module, recs, consts=consts, timeout=timeout)
        if os.environ.get("VERIF_TIMES"):
            print("%s: %d runs %.1f s, TLC %.1f s" % (module, len(recs), t2 - t1, time.time() - t2))
        n += len(recs)
        sus = [j for j, b in enumerate(bad) if any(clauses is None or x["bad"] in [*clauses, "malformed"] for x in b)]
        sus = sus[:24]
        if sus:
            recs2 = pmap(runner, [keep[j][0] for j in sus])
            ok = [(j, r) for j, r in zip(sus, recs2) if r is not None]
            bad2 = validate(ctx, module, [r for _, r in ok], consts=consts, count=False, timeout=timeout)
            for (j, r), b2 in zip(ok, bad2):
                k1 = {x["bad"] for x in bad[j] if clauses is None or x["bad"] in [*clauses, "malformed"]}
                both = [x for x in b2 if x["bad"] in k1]
                if both:
                    x = both[0]
                    d = describe(keep[j][0], r) if describe else ""
                    ctx.violation("%s %s %s" % (x["bad"], d, {a: b for a, b in x.items()
                                                              if a not in ("bad", "c")}),
                                  {"input": keep[j][0], "clauses": both[:8], "execution": r})
        for (i, r) in keep[:2]:
            ctx.sample(r)
        if deadline and time.time() - ctx.t0 > deadline:
            break
        if ctx.violations:
            break
    ctx.traces += n
    return n


# ------------------------------------------------------------------------ main
def main(checks):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    # a background job of a plain shell starts with SIGINT ignored, and its children would inherit that
    signal.signal(signal.SIGINT, signal.default_int_handler)
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
    ctx = Ctx(a.property, tier, a.seed)
    rc = 2
    try:
        try:
            level = checks(a.property)(ctx)
            rc = ctx.finish(level or "model_checking")
        except B.BuildError as e:
            print("%s: the sources do not build: %s" % (a.property, e))
        except MachineryError as e:
            print("%s: no answer: %s" % (a.property, e))
    finally:
        if a.keep:
            print("kept", ctx.scratch)
        else:
            ctx.cleanup()
    sys.stdout.flush()
    os._exit(rc)

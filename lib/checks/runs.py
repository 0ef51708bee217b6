"""C11, C12: killing, interrupting and timing out runs (TraceRun.tla, Run.tla)."""
import os
import re
import resource
import shutil
import signal
import tempfile
from fractions import Fraction as F

import fw
import models
import vi
from checks.solver import method_opts, terminal

MARK = "@@SIGNAL"
EPOCH = vi.STAT
BACKUP = re.compile(r"^##pomdp-solve-\d+##$")


def prepare(d, case):
    with open(os.path.join(d, "m.pomdp"), "w") as f:
        f.write(models.text(case["model"], None))
    cmd = ["-pomdp", "m.pomdp", "-o", "out"]
    if case.get("term"):
        vi.write_alpha(os.path.join(d, "init.alpha"), case["term"])
        cmd += ["-terminal_values", "init.alpha"]
    return cmd + vi.opts_of(case["opts"])


def read(p):
    try:
        return open(p, encoding="latin-1").read()
    except OSError:
        return None



def reference(ctx, case):
    """An undisturbed run that saves everything: contents by epoch, and the number of events."""
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        cmd = [ctx.bin("pomdp-solve")] + prepare(d, case) + ["-save_all"]
        r = fw.run(cmd, d, timeout=20)
        if r.status != "0" or "Solution found" not in r.out:
            return None
        al, pg, k = [read(os.path.join(d, "out.alpha"))], [read(os.path.join(d, "out.pg"))], 1
        al, pg = [], []
        while os.path.exists(os.path.join(d, "out.alpha%d" % k)):
            al.append(read(os.path.join(d, "out.alpha%d" % k)))
            pg.append(read(os.path.join(d, "out.pg%d" % k)))
            k += 1
        if not al or sum(map(len, al)) > 60000:
            return None
        for f in os.listdir(d):
            if f.startswith(("out", "##")):
                os.unlink(os.path.join(d, f))
        # the events of the run that will be disturbed
        log = os.path.join(d, "log")
        env = dict(LD_PRELOAD=case["shim"], SHIM_LOG=log, SHIM_BUF=str(case["buf"]))
        r = fw.run([ctx.bin("pomdp-solve")] + prepare(d, case) + case["extra"], d, timeout=20, env=env)
        ev = (read(log) or "").split("\n")
        last = [x.split() for x in ev if x.strip()]
        if r.status != "0" or not last:
            return None
        return dict(al=al, pg=pg, events=int(last[-1][0]), allocs=int(last[-1][1]),
                    init=None)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def classify(text, ref, prefer):
    """Which epoch's content it is (epochs can have the same; then the one looked for)."""
    if text is None:
        return dict(of=-1, ok=False)
    if isinstance(ref, list):
        ref = dict(enumerate(ref, 1))
    for k in [k for k in prefer if k in ref] + sorted(ref):
        if text == ref[k]:
            return dict(of=k, ok=True)
    return dict(of=-2, ok=False)


def initial(case):
    """The files that a run of no epochs at all leaves."""
    vs = case.get("term") or [dict(a=0, v=["0"] * case["model"]["ns"])]
    return vs


def same_vectors(text, vs, d):
    p = os.path.join(d, ".cmp")
    with open(p, "w", encoding="latin-1") as f:
        f.write(text)
    got = vi.read_alpha(p)
    key = lambda l: sorted((x["a"], [float(y) for y in x["v"]]) for x in l)
    return got is not None and key(got) == key(vs)


def disturb(ctx, x):
    case, ref = x["case"], x["ref"]
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        env = dict(LD_PRELOAD=case["shim"], SHIM_BUF=str(case["buf"]), SHIM_SIG=str(int(x["sig"])))
        env["SHIM_ALLOC" if x["by"] == "alloc" else "SHIM_AT"] = str(x["at"])
        opts = prepare(d, case) + case["extra"] + (["-time_limit", "500"] if x["kind"] == "timeout" else [])
        r = fw.run([ctx.bin("pomdp-solve")] + opts, d, timeout=30, env=env)
        rec = dict(id=x["id"], kind=x["kind"], cmd=" ".join(opts), at="%s %d" % (x["by"], x["at"]), status=r.status,
                   all="-save_all" in case["extra"], penw="-save_penultimate" in case["extra"],
                   solution="Solution found" in r.out, message="Terminated due to SIGVTALRM" in r.out,
                   seconds=0, limit=0)
        k = r.out.find(MARK)
        if k < 0:
            return None         # the run ended before
        rec["early"] = "[Initial policy has" not in r.out[:k]
        rec["before"] = len(EPOCH.findall(r.out[:k]))
        rec["reported"] = len(EPOCH.findall(r.out[:k] + r.out[k + len(MARK):]))
        rec["solbefore"] = "Solution found" in r.out[:k]
        fill(rec, d, case, ref)
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fill(rec, d, case, ref):
    names = os.listdir(d)
    bk = [f for f in names if BACKUP.match(f)]
    other = [f for f in names if f.startswith("##") and f not in bk]
    al, pg = read(os.path.join(d, "out.alpha")), read(os.path.join(d, "out.pg"))
    k = rec["reported"]
    files = dict(backup=classify(read(os.path.join(d, bk[0])) if bk else None, ref["al"], [k, k - 1]),
                 new=dict(of=-1 if not other else -2, ok=False),
                 alpha=classify(al, ref["al"], [k, k - 1]), pg=classify(pg, ref["pg"], [k]))
    if rec["reported"] == 0 and rec["kind"] == "interrupted":
        # a run of no epochs: the value function it starts with
        if al is not None and same_vectors(al, initial(case), d):
            files["alpha"] = dict(of=0, ok=True)
        if pg is not None and len(pg.split("\n")) - 1 == len(initial(case)):
            files["pg"] = dict(of=0, ok=True)
    rec["files"] = files
    each = []
    while os.path.exists(os.path.join(d, "out.alpha%d" % (len(each) + 1))):
        k = len(each) + 1
        a = classify(read(os.path.join(d, "out.alpha%d" % k)), ref["al"], [k])
        p = classify(read(os.path.join(d, "out.pg%d" % k)), ref["pg"], [k])
        each.append(dict(of=a["of"], ok=a["ok"] and p["of"] == k and p["ok"] if a["of"] == k else False))
    rec["each"] = each
    rec["prev"] = classify(read(os.path.join(d, "out.prev.alpha")), ref["al"], [rec["reported"] - 1])


def cases(ctx, n):
    rng = ctx.rng("runs")
    ctx.guard = False           # the shim is preloaded, which the memory checks do not allow
    shim = ctx.build.shared("shim")
    ctx.bin("pomdp-solve")
    out = []
    for i in range(n * 3):
        m = models.gen(rng, ns=rng.choice([1, 2, 2, 3]), na=rng.choice([1, 2, 3]), no=rng.choice([1, 2]))
        o = method_opts(rng, m=m)
        for k in ("alg_rand", "prune_rand"):
            o.pop(k, None)
        if rng.random() < .2:
            o.update(method="grid", fg_points=20)
        o["horizon"] = rng.choice([2, 3, 3, 4])
        if i % 3 == 0:          # more vectors, more epochs
            m = models.gen(rng, ns=3, na=rng.choice([2, 3]), no=2, g=rng.choice([F(1, 2), F(9, 10), F(1)]), grid=100)
            o["horizon"] = rng.randint(4, 6)
        extra = []
        if rng.random() < .4:
            extra.append("-save_all")
        if rng.random() < .3:
            extra.append("-save_penultimate")
        c = dict(id=str(i), model=m, opts=o, extra=extra, buf=rng.choice([32, 64, 256, 4096]), shim=shim,
                 term=terminal(rng, m) if rng.random() < .3 else None)
        out.append(c)
    refs = fw.pmap(lambda c: reference(ctx, c), out)
    good = [(c, r) for c, r in zip(out, refs) if r is not None]
    if len(good) < min(4, n):
        # whatever is wrong, a run that nothing disturbs does not even end
        bad = next(c for c, r in zip(out, refs) if r is None)
        ctx.violation("undisturbed runs do not end with a solution", bad)
    return good[:n]


def points(rng, total, most):
    return list(range(1, total + 1)) if total <= most else sorted(rng.sample(range(1, total + 1), most))


DESIGN = """SPECIFICATION Spec
CONSTANT H = %d
CONSTANT SaveAll = %s
CONSTANT Pen = %s
CONSTANT InPlace = %s
INVARIANTS Recoverable EachSaved CleanEnd Prompt
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


def design(ctx):
    h = 6 if ctx.thorough() else 4
    for a in ("TRUE", "FALSE"):
        for p in ("TRUE", "FALSE"):
            ctx.tlc("Run", DESIGN % (h, a, p, "FALSE"), expect_ok=True)
    r = ctx.tlc("Run", DESIGN % (h, "FALSE", "FALSE", "TRUE"), count=False)
    if r.rc == 0:
        raise fw.MachineryError("Run.tla accepts a backup file that is overwritten in place")


def describe(i, r):
    return r["cmd"] + " @ " + r["at"]


def c11(ctx):
    design(ctx)
    rng = ctx.rng("points")
    xs = []
    for c, ref in cases(ctx, 240 if ctx.thorough() else 80):
        for at in points(rng, ref["events"], 400 if ctx.thorough() else 90):
            xs.append(dict(id="%s/%d" % (c["id"], at), case=c, ref=ref, kind="killed", by="file", at=at,
                           sig=int(signal.SIGKILL)))
    fw.conform(ctx, "TraceRun", xs, lambda x: disturb(ctx, x), describe=describe)
    ctx.cov["crash_points"] = len(xs)


def timed(ctx, x):
    """A real time limit on a model whose value function grows beyond reach."""
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        case = x["case"]
        opts = prepare(d, case) + ["-time_limit", str(x["limit"])]
        t0 = resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime
        r = fw.run([ctx.bin("pomdp-solve"), *opts], d, timeout=90)
        dt = resource.getrusage(resource.RUSAGE_CHILDREN).ru_utime - t0
        rec = dict(id="timed", kind="timed", cmd=" ".join(opts), at="time", status=r.status, all=False, penw=False,
                   solution="Solution found" in r.out, message="Terminated due to SIGVTALRM" in r.out,
                   seconds=int(1000 * dt), limit=x["limit"], early=False, solbefore=False)
        n = rec["reported"] = rec["before"] = len(EPOCH.findall(r.out))
        ref = dict(al={}, pg={})
        if n > 1:
            e = os.path.join(d, "ref")
            os.mkdir(e)
            c2 = dict(case, opts=dict(case["opts"], horizon=n))
            fw.run([ctx.bin("pomdp-solve"), *prepare(e, c2), "-save_penultimate"], e, timeout=200)
            ref["al"] = {n: read(os.path.join(e, "out.alpha")), n - 1: read(os.path.join(e, "out.prev.alpha"))}
        fill(rec, d, case, ref)
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def c12(ctx):
    design(ctx)
    rng = ctx.rng("points")
    xs = []
    for c, ref in cases(ctx, 240 if ctx.thorough() else 90):
        for kind, sig in (("interrupted", signal.SIGINT), ("timeout", signal.SIGVTALRM)):
            for by, total in (("file", ref["events"]), ("alloc", ref["allocs"])):
                for at in points(rng, total, (60 if by == "alloc" else 90) if ctx.thorough() else
                                 (18 if kind == "interrupted" else 8)):
                    xs.append(dict(id="%s/%s%d" % (c["id"], by, at), case=c, ref=ref, kind=kind, by=by, at=at,
                                   sig=int(sig)))
    fw.conform(ctx, "TraceRun", xs, lambda x: disturb(ctx, x), describe=describe)
    ctx.cov["signals"] = len(xs)
    if not ctx.violations:
        m = models.gen(ctx.rng("timed"), ns=3, na=2, no=2, grid=100, rkind="sa")
        m.update(blow(ctx.rng("blow")))
        fw.conform(ctx, "TraceRun", [dict(limit=t, case=dict(model=m, opts=dict(method=q, horizon=100000000)))
                                     for t, q in ((1, "incprune"), (2, "witness"), (5, "twopass"), (7, "incprune"))], lambda x: timed(ctx, x), describe=describe)


def blow(rng):
    """A model whose values take very long to converge."""
    def row(n):
        k = [rng.randint(1, 9) for _ in range(n)]
        s = sum(k)
        q = [F(int(100 * x / s), 100) for x in k]
        q[0] += 1 - sum(q)
        return [models.dec(x) for x in q]
    return dict(g="0.9999999", cost=False,
                T=[[row(3) for _ in range(3)] for _ in range(2)], O=[[row(2) for _ in range(3)] for _ in range(2)],
                R=[dict(a=a, s=s, t=0, z=0, v=str(rng.randint(1, 10))) for a in range(1, 3) for s in range(1, 4)])


CHECKS = {"C11": c11, "C12": c12}

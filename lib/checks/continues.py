"""C24: a run that continues another is the run that was never cut (TraceContinue.tla, Continue.tla)."""
import os
import re
from fractions import Fraction as F

import fw
import models
import vi
from checks.solver import method_opts, size_for, terminal, horizon_for

BACKUP = re.compile(r"^##pomdp-solve-\d+##$")


def design(ctx):
    for n, h in ((2, 3),) + (((2, 5), (3, 3)) if ctx.thorough() else ()):
        ctx.tlc("Continue", "SPECIFICATION Spec\nINVARIANT Same\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS\nN = %d\nH = %d\n"
                % (n, h), expect_ok=True)


def text(d, name):
    try:
        return open(os.path.join(d, name), encoding="latin-1").read()
    except OSError:
        return None


def epochs(r):
    if len(r["ep"]) != len(r["stats"]) or any(not e["al"] for e in r["ep"]):
        return None
    return [dict(al=e["al"], err=s["err"] if re.match(r"^(inf|[-+.0-9e]+)$", s["err"]) else "inf",
                 pb=vi.pars_hints(e["al"])[0]) for e, s in zip(r["ep"], r["stats"])]


def record(ctx, case):
    m, o, rng = case["model"], case["opts"], ctx.rng("continue" + case["id"])
    saved = {}

    def keep(d, r):
        for k in range(1, len(r["ep"]) + 1):
            saved["epoch", k] = text(d, "out.alpha%d" % k)
        saved["last"] = text(d, "out.alpha")
        saved["prev"] = text(d, "out.prev.alpha")
        saved["back"] = next((text(d, f) for f in os.listdir(d) if BACKUP.match(f)), None)
    w = vi.solve(ctx, m, o, term=case["term"], pen=True, timeout=12, keep=keep)
    if w["status"] != "0" or not w["finx"] or len(w["ep"]) < 2 or any(len(e["al"] or []) > 40 for e in w["ep"]):
        return None         # (other properties judge it)
    whole, n = epochs(w), len(w["ep"])
    if not whole:
        return None
    g = F(m["g"])
    if o["stop_criteria"] != "exact" and g > 0:
        thr = float(F(o["stop_delta"]) * (1 - g) / (2 * g))
        if any(x["err"] != "inf" and abs(float(x["err"]) - thr) <= .015 * thr for x in whole):
            return None     # where rounding decides
    files = dict(saved)
    starts, kinds = [], ctx.cov.setdefault("continued_from", {})
    for k in rng.sample(range(1, n), min(n - 1, 2)):
        starts.append((k, files["epoch", k]))
    if files["prev"] is not None:
        starts.append((n - 1, files["prev"]))
    k = rng.randint(1, n - 1)
    saved.clear()
    r = vi.solve(ctx, m, dict(o, horizon=k), term=case["term"], saveall=False, timeout=12, keep=keep)
    if r["status"] == "0" and saved.get("last"):
        starts.append((k, saved["last"]))
    if case["shim"]:
        saved.clear()
        r = vi.solve(ctx, m, o, term=case["term"], saveall=False, timeout=12, keep=keep,
                     env=dict(LD_PRELOAD=case["shim"], SHIM_AT=str(rng.randint(8, 30 + 12 * n)), SHIM_SIG="9", SHIM_BUF="4096"))
        if saved.get("back"):
            k = [j for j in range(1, n) if files["epoch", j] == saved["back"]]
            k = [j for j in k if abs(j - len(r["stats"])) <= 1]
            if len(k) == 1:
                starts.append((k[0], saved["back"]))
    kinds["a killed run"] = kinds.get("a killed run", 0) + (len(starts) > 0 and starts[-1][1] == saved.get("back"))
    kinds["files"] = kinds.get("files", 0) + len(starts)
    parts = []
    for k, t in starts:
        q = dict(o, terminal_values="left.alpha")
        if o["horizon"] > k:
            q["horizon"] = o["horizon"] - k
        r = vi.solve(ctx, m, q, files=[("left.alpha", t)], timeout=20)
        ep = epochs(r)
        st = r["status"]
        if st == "0" and (ep is None or not r["fin"]["al"]):
            st, ep = "no readable solution", []
        if st == "timeout":
            continue
        parts.append({"from": k, "cmd": r["cmd"], "status": st, "ep": ep or [],
                      "fin": dict(al=r["fin"]["al"] or [], pb=vi.pars_hints(r["fin"]["al"])[0] if r["fin"]["al"] else [])})
    if not parts:
        return None
    sc = vi.scale_of(*[x["al"] for x in whole])
    return dict(id=case["id"], model=m, crit=o["stop_criteria"], tol=vi.sci(1e-9 * sc), whole=whole, parts=parts)


def c24(ctx):
    rng = ctx.rng()
    design(ctx)
    ctx.guard = False           # the shim is preloaded, which the memory checks do not allow
    shim = ctx.build.shared("shim")
    cases = []
    for i in range(1500 if ctx.thorough() else 260):
        m = models.gen(rng, **size_for(rng, i))
        o = method_opts(rng, m=m)
        o["horizon"] = max(2, horizon_for(rng, m, 2))
        o["stop_criteria"] = rng.choice(["exact", "weak", "bellman"])
        o["stop_delta"] = rng.choice(["1e-9", "0.1", "1", "10", "100"])
        for k in ("alg_rand", "prune_rand"):
            o.pop(k, None)
        cases.append(dict(id=str(i), model=m, opts=o, shim=shim if i % 2 else None,
                          term=terminal(rng, m) if rng.random() < .3 else None))
    ctx.bin("pomdp-solve")
    fw.conform(ctx, "TraceContinue", cases, lambda c: record(ctx, c),
               describe=lambda c, r: "[%s]" % " ".join(vi.opts_of(c["opts"])))


CHECKS = {"C24": c24}

"""C20: the variations of value iteration, run until they end by themselves."""
import os
import re
from fractions import Fraction as F

import fw
import models
import vi
from checks import solver

FIRST = re.compile(r">>Starting epsilon set to (\S+?)<<")
ADJ = re.compile(r">>Adjusted epsilon to (\S+?)<<")


def optimum(ctx, case):
    """Several runs of one model, each to its own end."""
    m = case["model"]
    runs = []
    hung = os.path.join(ctx.scratch, "hung")        # a few are enough
    os.makedirs(hung, exist_ok=True)
    ids = os.listdir(hung)
    if len(ids) >= 6 and case["id"] not in ids:
        return None
    for o in case["variants"]:
        o = dict(o, stop_delta=case["delta"])
        zlz = o.get("vi_variation") == "zlz"
        r = vi.solve(ctx, m, o, term=case["term"], saveall=zlz, timeout=3)
        st, al = r["status"], r["fin"]["al"]
        if st == "timeout" and stuck(m, case, r):   # the next epoch is a matter of moments
            n = len(r["stats"])
            r = vi.solve(ctx, m, o, term=case["term"], saveall=zlz, timeout=60)
            st, al = r["status"], r["fin"]["al"]
            if st == "timeout" and stuck(m, case, r) and len(r["stats"]) <= n + 1:
                runs.append(dict(cmd=r["cmd"], status=st, crit=o["stop_criteria"], al=[], ep=[]))
                open(os.path.join(hung, case["id"]), "w").close()
                break
        if st == "timeout" or len(al or []) > 25:
            continue
        if r["shaky"]:      # the program says so itself
            continue
        if st == "0" and (al is None or "Solution found" not in r["out"]):
            st = "no readable solution"
        runs.append(dict(cmd=r["cmd"], status=st, crit=o["stop_criteria"], al=al or [],
                         ep=steps(r["ep"]) if zlz and st == "0" else []))
    if not runs:
        return None
    sc = vi.scale_of(*[r["al"] for r in runs])
    init = case["term"] or [dict(a=0, v=["0"] * m["ns"])]
    return dict(id=case["id"], model=m, delta=case["delta"], init=init, tol=vi.sci(6e-6 * sc), runs=runs)


def stuck(m, case, r):
    """The last value function is so small that a backup of it is quick (the
    speedup can still make hundreds of vectors of a few in more states)."""
    k = r["stats"][-1]["k"] if r["stats"] else len(case["term"] or [0])
    if os.environ.get("VERIF_TIMES"):
        print("stuck? %d %d %d %d" % (m["ns"], m["na"], k, m["no"]))
    return m["ns"] <= 2 and k <= 6 and m["na"] * k ** m["no"] <= 100


def low(rng, m):
    """A constant that is below every value the model can have."""
    g = F(m["g"])
    x = min([F(0)] + [(-1 if m["cost"] else 1) * F(e["v"]) for e in m["R"]]) / (1 - g)
    return [dict(a=rng.randrange(m["na"]), v=[models.dec(F(int(x) - rng.randint(1, 9)))] * m["ns"])]


def steps(ep):
    """The backups of the first epochs, as far as they are small."""
    out = []
    for e in ep[:6]:
        if e["al"] is None:
            return [[dict(a=-1, v=["0"])]] * 2
        if len(e["al"]) > 14:
            break
        out.append(e["al"])
    return out


def adjust(ctx, case):
    """A run of adjustable_epsilon as a trace of TraceAdjust."""
    m, o, s = case["model"], case["opts"], case["sched"]
    r = vi.solve(ctx, m, dict(o, vi_variation="adjustable_epsilon", start_epsilon=s["start"], end_epsilon=s["end"],
                              epsilon_adjust=s["factor"], history_length=s["len"], history_delta=s["delta"]),
                 term=case["term"], timeout=8)
    st, ep = r["status"], r["ep"]
    if st == "timeout":
        k = len(ep[-1]["al"] or []) if ep else 1
        if m["na"] * k ** m["no"] <= 400:
            return dict(id=case["id"], cmd=r["cmd"], model=m, init=case["term"] or [dict(a=0, v=["0"] * m["ns"])],
                        sched=s, approx=approx(o), first="", ep=[], status="timeout", garbled=False)
        return None
    # the lines between two epochs
    parts, pos = [], 0
    for x in vi.STAT.finditer(r["out"]):
        parts.append(r["out"][pos:x.start()])
        pos = x.end()
    parts.append(r["out"][pos:])
    first = FIRST.findall(parts[0])
    garbled = len(parts) != len(ep) + 1 or any(e["al"] is None for e in ep)
    rec = dict(id=case["id"], cmd=r["cmd"], model=m, init=case["term"] or [dict(a=0, v=["0"] * m["ns"])], sched=s,
               approx=approx(o), first=" ".join(first), ep=[], status=st, garbled=garbled)
    if garbled:
        return rec
    prev = rec["init"]
    rng = ctx.rng("hint%s" % case["id"])
    for i, e in enumerate(ep):
        if len(e["al"]) > 60:
            rec["status"] = "cut"
            break
        sc = vi.scale_of(prev, e["al"])
        full = len(e["al"]) <= 24 and len(prev) <= 24 and i < 8 and not r["shaky"]
        hb = vi.complete_hints(m, prev, e["al"], rng) if full and m["ns"] >= 4 else []
        rec["ep"].append(dict(al=e["al"], k=r["stats"][i]["k"], adj=" ".join(ADJ.findall(parts[i + 1])),
                              tol=vi.sci(2e-6 * sc), full=full, hb=hb))
        prev = e["al"]
    return None if rec["status"] == "cut" and not rec["ep"] else rec


def approx(o):
    return dict(method=o["method"], ip=o.get("inc_prune", "normal"), q=o.get("q_purge", "normal_prune"), enum=o.get("enum_purge", "normal_prune"),
                proj=o.get("proj_purge", "none"), peps=str(o.get("prune_epsilon", "1e-9")),
                eps=str(o.get("epsilon", "1e-9")))


def c20(ctx):
    rng = ctx.rng()
    ctx.bin("pomdp-solve")
    ctx.java()
    cases = []
    for i in range(1500 if ctx.thorough() else 150):
        m = models.gen(rng, ns=rng.choice([1, 2, 2, 2, 3]), na=rng.choice([1, 2, 3]), no=rng.choice([1, 1, 2, 2, 3]),
                       g=rng.choice([F(1, 4), F(1, 2), F(1, 2), F(3, 4), F(9, 10)]))
        v = []
        for k in range(6):
            o = solver.method_opts(rng, m=m)
            o["stop_criteria"] = rng.choice(["weak", "bellman", "bellman", "exact"])
            if k % 2:
                o["vi_variation"] = "zlz"
            v.append(o)
        cases.append(dict(id=str(i), model=m, variants=v, delta=rng.choice(["0.01", "0.001", "0.1", "1"]),
                          term=solver.terminal(rng, m) if rng.random() < .3 else low(rng, m) if rng.random() < .4 else None))
    n = fw.conform(ctx, "TraceOptimum", cases, lambda c: optimum(ctx, c), describe=lambda c, r: "")
    if ctx.violations:
        return
    cases = []
    for i in range(2500 if ctx.thorough() else 400):
        m = models.gen(rng, **solver.size_for(rng, i))
        o = solver.method_opts(rng, m=m)
        o.pop("proj_purge", None)
        w = rng.random()
        if w < .5:
            o["enum_purge" if o["method"] == "enum" else "q_purge"] = "epsilon_prune"
        o["horizon"] = rng.randint(4, 12) if m["no"] == 1 else rng.randint(3, 6)
        if m["no"] > 3 or m["ns"] > 3:
            o["horizon"] = 3
        s = dict(start=rng.choice(["0.5", "1", "0.25", "2", "0.1"]), end=rng.choice(["0.03", "0.0007", "0.003", "0.2"]),
                 factor=rng.choice(["2", "4", "8", "1.5", "10"]), len=rng.choice([1, 2, 2, 3, 4]),
                 delta=rng.choice([1, 1, 1, 2, 3]))
        cases.append(dict(id="a%d" % i, model=m, opts=o, sched=s,
                          term=solver.terminal(rng, m) if rng.random() < .4 else None))
    fw.conform(ctx, "TraceAdjust", cases, lambda c: adjust(ctx, c), describe=lambda c, r: "")


CHECKS = {"C20": c20}

"""C10: the finite grid method against TraceGrid.tla."""
import os
import re
from fractions import Fraction as F

import fw
import models
import vi
from checks.solver import terminal, describe

NUMS = re.compile(r"^-?\d+\.\d+$")


def record(ctx, case):
    m, o = case["model"], case["opts"]
    grid = []

    def keep(d, res):
        p = os.path.join(d, "out.belief")
        if os.path.exists(p):
            for ln in open(p, encoding="latin-1"):
                if ln.strip():
                    grid.append(ln.split())
    r = vi.solve(ctx, m, o, term=case.get("term"), start=" ".join(case["start"]) if case.get("start") else None, keep=keep, timeout=20)
    zero = [dict(a=0, v=["0"] * m["ns"])]
    prev = case.get("term") or zero
    rec = dict(id=case["id"], cmd=r["cmd"], status=r["status"], model=m, init=prev, type=o["fg_type"],
               start=case.get("start") or [], limit=o["fg_points"], eps=str(o.get("fg_epsilon", "1e-9")),
               delta=str(o.get("stop_delta", "1e-9")), horizon=o["horizon"], garbled=False, ep=[], lines=[],
               bare=dict(ran=False),
               grid=grid, fin=dict(al=[], pg=[]))
    if not rec["start"]:
        rec["start"] = ["%d/%d" % (1, m["ns"])] * m["ns"]
    if any(len(g) != m["ns"] or not all(NUMS.match(x) for x in g) for g in grid):
        rec["garbled"] = True
        rec["grid"] = []
        return rec
    rec["grid"] = [[vi.trim(x) for x in g] for g in grid]
    if any(e["al"] is None or e["pg"] is None for e in r["ep"]) or not r["finx"] or r["fin"]["al"] is None \
            or r["fin"]["pg"] is None:
        rec["garbled"] = True
        return rec
    # what a linear program removes can be worth as much as its precision
    lp = any(o.get(k, "normal_prune") == "normal_prune" for k in ("proj_purge", "fg_purge"))
    for i, e in enumerate(r["ep"]):
        st = r["stats"][i] if i < len(r["stats"]) else dict(n=-1, k=-1, err="none")
        sc = vi.scale_of(prev, e["al"])
        rec["ep"].append(dict(n=st["n"], k=st["k"], err=st["err"] if re.match(r"^(inf|[-+.0-9e]+)$", st["err"])
                              else "none", al=e["al"], pg=e["pg"], tol=vi.sci(1e-8 * sc), cut=vi.sci((2e-6 if lp else 1e-8) * sc), eps=vi.sci(1e-12 * sc)))
        prev = e["al"]
    rec["fin"] = dict(al=r["fin"]["al"], pg=r["fin"]["pg"])
    rec["lines"] = ["%d %d %s" % (x["n"], x["k"], x["err"]) for x in r["stats"]]
    rec["bare"] = vi.bare(ctx, rec if case["bare"] else dict(status="no"), m, {k: v for k, v in o.items() if k != "fg_save"},
                          term=case.get("term"), start=" ".join(case["start"]) if case.get("start") else None)
    return rec


def c10(ctx):
    rng = ctx.rng()
    cases = []
    for i in range(6000 if ctx.thorough() else 500):
        m = models.gen(rng, ns=rng.choice([1, 2, 2, 3, 3, 4, 5, 6]), na=rng.choice([1, 2, 3]), no=rng.choice([1, 2, 2, 3, 3, 4, 5]),
                       grid=rng.choice([4, 8, 10, 20]))
        o = dict(method="grid", fg_type=rng.choice(["simplex", "pairwise", "search", "initial"]),
                 fg_points=rng.choice([1, 2, 3, 5, 8, 13, 20, 30]), fg_save=True,
                 horizon=rng.randint(1, 5 if ctx.thorough() else 4))
        if m["no"] > 3:
            o["fg_points"] = min(o["fg_points"], 8 if m["no"] == 4 else 3)
            if m["ns"] > 3:
                o["fg_type"] = rng.choice(["search", "initial"])
        if rng.random() < .35:
            o["fg_epsilon"] = rng.choice(["1e-6", "0.01", "0.1", "0.3"])
        if rng.random() < .5:
            o["fg_purge"] = rng.choice(["none", "domonly", "normal_prune"])
        if rng.random() < .3:
            o["proj_purge"] = rng.choice(["none", "domonly", "normal_prune"])
        if rng.random() < .4:
            o["stop_delta"] = rng.choice(["0.1", "1", "10", "50"])
            o["horizon"] = rng.randint(3, 10)
        if rng.random() < .2:
            o["stop_criteria"] = rng.choice(["exact", "bellman"])
        start = None
        if rng.random() < .6:
            start = [models.dec(x) for x in models.dist(rng, m["ns"], rng.choice([4, 8, 10]))]
        cases.append(dict(id=str(i), model=m, opts=o, start=start, bare=rng.random() < .5,
                          term=terminal(rng, m) if rng.random() < .3 else None))
    ctx.bin("pomdp-solve")
    ctx.java()
    fw.conform(ctx, "TraceGrid", cases, lambda c: record(ctx, c), describe=describe, chunk=500)


CHECKS = {"C10": c10}

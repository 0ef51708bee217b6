"""C01-C06: runs of the solver against TraceVI.tla (and its companions)."""
import json
import os
from fractions import Fraction as F

import fw
import models
import vi

EXACT = ["enum", "twopass", "witness", "incprune"]
VALUE = {"unachieved", "below-backup", "shape", "ended"}


def method_opts(rng, pruned=True, m=None):
    """A method and a variation of it that must stay exact.  (Where vectors come nearer to each other than linear
    programs resolve, the variations of incremental pruning that compare with discarded vectors lose both of two.)"""
    o = dict(method=rng.choice(EXACT))
    if o["method"] == "incprune":
        o["inc_prune"] = rng.choice(["normal", "normal", "restricted_region", "generalized"])
        if m and m.get("near"):
            o["inc_prune"] = "normal"
    if rng.random() < .25:
        o["proj_purge"] = rng.choice(["domonly", "normal_prune", "none"] if not pruned
                                     else ["domonly", "normal_prune"])
    if rng.random() < .2:
        o["alg_rand"] = rng.choice([1, 3, 10])
    if rng.random() < .2:
        o["prune_rand"] = rng.choice([1, 5])
    if rng.random() < .2:
        o["dom_check"] = rng.choice(["true", "false"])
    if rng.random() < .2:
        o["witness_points"] = rng.choice(["true", "false"])
    if not pruned:
        if rng.random() < .3:
            o["q_purge"] = rng.choice(["domonly", "none", "normal_prune"])
        if o["method"] == "enum" and rng.random() < .4:
            o["enum_purge"] = rng.choice(["domonly", "none", "normal_prune"])
    return o


def size_for(rng, i):
    """Sizes: mostly small, some with more states, actions or observations."""
    k = i % 10
    if k < 5:
        return dict()
    if k == 5:
        return dict(ns=rng.choice([4, 5, 6]), na=rng.choice([2, 3]), no=2)
    if k == 6:
        return dict(ns=2, na=rng.choice([5, 6]), no=2)
    if k == 7:
        return dict(ns=2, na=2, no=rng.choice([4, 5]))
    if k == 8:
        return dict(ns=rng.choice([2, 3]), no=1)
    return dict(ns=rng.choice([1, 2]), na=rng.choice([1, 2, 3]), no=rng.choice([1, 2, 3]))


def horizon_for(rng, m, deep=0):
    if m["no"] == 1:
        return rng.randint(1, 6 + deep)
    if m["no"] >= 4 or m["ns"] >= 4:
        return rng.randint(1, 2)
    if m["no"] == 3:
        return rng.randint(1, 3 + (deep > 0))
    return rng.randint(1, 4 + deep)


def terminal(rng, m, n=None):
    """A set of initial vectors: unsorted, sometimes with useless ones."""
    n = n or rng.randint(1, 5)
    return [dict(a=rng.randrange(m["na"]),
                 v=[models.dec(F(rng.randint(-40, 40), rng.choice([1, 2, 4]))) for _ in range(m["ns"])])
            for _ in range(n)]


def describe(case, rec):
    m = case["model"]
    return "[%s; %d states, %d actions, %d observations, discount %s]" % (
        rec.get("cmd", ""), m["ns"], m["na"], m["no"], m["g"])


def run_vi(ctx, cases, clauses, chunk=400):
    ctx.bin("pomdp-solve")
    ctx.java()
    n = fw.conform(ctx, "TraceVI", cases, lambda c: vi.record(ctx, c), clauses=clauses, describe=describe,
                   chunk=chunk)
    return n


def c01(ctx):
    rng = ctx.rng()
    cases = []
    for i in range(6000 if ctx.thorough() else 700):
        m = models.gen(rng, **size_for(rng, i))
        o = method_opts(rng, pruned=False, m=m)
        h = horizon_for(rng, m, 2 if ctx.thorough() else 0)
        if o.get("enum_purge", "normal_prune") != "normal_prune" or o.get("q_purge", "normal_prune") != "normal_prune" \
                or o.get("proj_purge") == "none":
            h = min(h, 2 if m["no"] > 1 else 3)
            if m["no"] > 3:
                o.pop("enum_purge", None), o.pop("q_purge", None), o.pop("proj_purge", None)
        o["horizon"] = h
        cases.append(dict(id=str(i), model=m, opts=o, pars=False,
                          term=terminal(rng, m) if rng.random() < .35 else None))
    run_vi(ctx, cases, VALUE)


def c02(ctx):
    rng = ctx.rng()
    cases = []
    for i in range(6000 if ctx.thorough() else 700):
        m = models.gen(rng, **size_for(rng, i))
        o = method_opts(rng, m=m)
        o["horizon"] = horizon_for(rng, m, 2 if ctx.thorough() else 1)
        cases.append(dict(id=str(i), model=m, opts=o, value=False,
                          term=terminal(rng, m) if rng.random() < .35 else None))
    run_vi(ctx, cases, {"useless", "shape", "ended"})


def c04(ctx):
    rng = ctx.rng()
    cases = []
    for i in range(6000 if ctx.thorough() else 700):
        m = models.gen(rng, **size_for(rng, i))
        o = method_opts(rng, m=m)
        o["horizon"] = horizon_for(rng, m, 2)
        cases.append(dict(id=str(i), model=m, opts=o, value=False, pars=False, deep=12,
                          term=terminal(rng, m) if rng.random() < .35 else None))
    run_vi(ctx, cases, {"pg-shape", "pg-links", "pg-value", "shape", "ended", "final"})


def c05(ctx):
    rng = ctx.rng()
    cases = []
    for i in range(4000 if ctx.thorough() else 500):
        kind = rng.choice(["free", "free", "short"])
        crit = rng.choice(["weak", "weak", "exact", "bellman", "bellman", "bellman"])
        m = models.gen(rng, ns=rng.choice([1, 2, 2, 3]), na=rng.choice([1, 2, 3]), no=rng.choice([1, 1, 2]),
                       cost=rng.random() < .4,
                       g=rng.choice([F(0), F(1, 2), F(3, 4), F(9, 10), F(1, 4), F(1)]))
        o = method_opts(rng, m=m)
        o["stop_criteria"] = crit
        o["stop_delta"] = rng.choice(["1e-9", "0.001", "0.1", "1", "5", "20", "100"])
        o["horizon"] = rng.randint(3, 12) if m["no"] == 1 else rng.randint(2, 6)
        if kind == "free" and m["no"] == 1:
            o["horizon"] = 40
        long = i % 4 == 0 and m["ns"] > 1
        if long:        # to the very end, however many vectors that takes
            m = models.gen(rng, ns=rng.choice([2, 2, 3]), na=rng.choice([2, 3, 4]), no=2, g=rng.choice([F(1, 4), F(1, 8), F(1, 10)]))
            o.pop("inc_prune" if m["near"] else "", None)
            o["stop_criteria"], o["horizon"] = "exact", 40
        if any(k in o for k in ("alg_rand", "prune_rand")):
            o["rand_seed"] = "%d:%d:%d" % tuple(rng.randint(1, 60000) for _ in range(3))
        cases.append(dict(id=str(i), model=m, opts=o, value=True, pars=False, deep=2 if long else 40, cap=12,
                          timeout=5 if long else 12, bare=long or rng.random() < .2,
                          term=terminal(rng, m) if rng.random() < .3 else None))
    run_vi(ctx, cases, {"err", "stop", "stop-early", "horizon", "ended", "shape", "bare"})


def c06(ctx):
    rng = ctx.rng()
    cases = []
    for i in range(3000 if ctx.thorough() else 500):
        m = models.gen(rng, **size_for(rng, i))
        o = method_opts(rng, m=m)
        o["horizon"] = horizon_for(rng, m, 2)
        if rng.random() < .3:
            o["stop_criteria"] = rng.choice(["exact", "bellman"])
        if rng.random() < .15:
            o.update(method="grid", fg_points=rng.choice([3, 10, 30]),
                     fg_type=rng.choice(["search", "initial", "pairwise"]))
        if any(k in o for k in ("alg_rand", "prune_rand")):
            o["rand_seed"] = "%d:%d:%d" % tuple(rng.randint(1, 60000) for _ in range(3))
        cases.append(dict(id=str(i), model=m, opts=o, value=False, pars=False, pen=rng.random() < .6,
                          kind="grid" if o["method"] == "grid" else "exact", bare=rng.random() < .6,
                          term=terminal(rng, m) if rng.random() < .35 else None))
    run_vi(ctx, cases, {"horizon", "report", "epochs", "final", "penultimate", "leftover", "order", "shape",
                        "ended", "bare"})


VARIANTS = [dict(method="incprune"), dict(method="enum"), dict(method="twopass"), dict(method="witness"),
            dict(method="incprune", inc_prune="restricted_region"),
            dict(method="incprune", inc_prune="generalized"),
            dict(method="witness", witness_points="true"),
            dict(method="enum", alg_rand=4, dom_check="true")]


def agree(ctx, case):
    m = case["model"]
    runs = []
    for o in case["variants"]:
        r = vi.solve(ctx, m, dict(o, horizon=case["h"]), term=case["term"], saveall=False, timeout=12)
        st, al = r["status"], r["fin"]["al"]
        if st == "0" and (al is None or not r["finx"]):
            st, al = "no readable solution", []
        if st == "timeout":
            k = r["stats"][-1]["k"] if r["stats"] else len(case["term"] or [1])
            if m["na"] * k ** m["no"] > 400:
                return None
        runs.append(dict(cmd=r["cmd"], status=st, al=al or [], pb=[]))
        if len(al or []) > 60:
            return None
    for r in runs:
        r["pb"] = vi.pars_hints(r["al"])[0] if r["al"] else []
    sc = vi.scale_of(*[r["al"] for r in runs])
    return dict(id=case["id"], model=m, tol=vi.sci(1e-5 * sc), runs=runs, init=case["term"] or [])


def c03(ctx):
    rng = ctx.rng()
    design(ctx)
    cases = []
    for i in range(2000 if ctx.thorough() else 220):
        m = models.gen(rng, **size_for(rng, i))
        v = [dict(x) for x in VARIANTS if not m["near"] or "inc_prune" not in x]
        for _ in range(3):
            v.append(method_opts(rng, m=m))
        cases.append(dict(id=str(i), model=m, variants=v, h=max(1, horizon_for(rng, m, 2) - 1),
                          term=terminal(rng, m) if rng.random() < .35 else None))
    with open(os.path.join(fw.VERIF, "lib", "near_model.json")) as f:     # the recorded finding
        cases.append(dict(id="recorded near-tie", model=json.load(f), h=3, term=None,
                          variants=[VARIANTS[0], dict(VARIANTS[4], prune_rand=5, rand_seed="1:1:1")]))
    ctx.bin("pomdp-solve")
    fw.conform(ctx, "TraceAgree", cases, lambda c: agree(ctx, c), describe=lambda c, r: c["id"] if "recorded" in c["id"] else "")


def design(ctx):
    """The algorithms themselves, for every choice they leave open."""
    cfg = "CONSTANT Big = %s\nSPECIFICATION Spec\nINVARIANTS Exact NoOvershoot ReferenceRight\nCHECK_DEADLOCK FALSE\n"
    r = ctx.tlc("ExactBackup", cfg % ("TRUE" if ctx.thorough() else "FALSE"), expect_ok=True, timeout=7200)
    ctx.cov["algorithm_states"] = r.distinct


def c19(ctx):
    """Approximate pruning."""
    rng = ctx.rng()
    cases = []
    for i in range(6000 if ctx.thorough() else 700):
        m = models.gen(rng, **size_for(rng, i))
        o = method_opts(rng, pruned=False, m=m)
        which = "enum_purge" if o["method"] == "enum" else "q_purge"
        w = rng.random()
        if w < .6:
            o[which] = "epsilon_prune"
        if w > .5 and w < .8:
            o["proj_purge"] = "epsilon_prune"
        if w < .8:
            o["prune_epsilon"] = rng.choice(["1e-6", "1e-4", "0.01", "0.1", "0.5", "1", "3"])
        if w > .75:
            o["epsilon"] = rng.choice(["1e-6", "1e-4", "0.001", "0.01", "0.1", "0.5"])
        o["horizon"] = min(3, horizon_for(rng, m, 1))
        if m["no"] > 3 or w > .8:
            for k in ("enum_purge", "q_purge", "proj_purge"):
                if o.get(k) in ("none", "domonly"):
                    del o[k]
        cases.append(dict(id=str(i), model=m, opts=o, pars=False,
                          term=terminal(rng, m) if rng.random() < .5 else None))
    run_vi(ctx, cases, VALUE)


CHECKS = {"C19": c19, "C03": c03, "C01": c01, "C02": c02, "C04": c04, "C05": c05, "C06": c06}

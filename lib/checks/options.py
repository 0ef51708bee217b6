"""C17: starts of the programs against Options.tla."""
import itertools
import os
import re
import shutil
import tempfile

import fw

# solved in one epoch by most settings; what a run prints when it starts is all that matters here
MODEL = """discount: 0.5
values: reward
states: 2
actions: 1
observations: 1
T: 0 identity
O: 0 uniform
R: 0 : 0 : * : * 0
"""
SHOWN = re.compile(r"PID=(\d+)\n- [- ]*\n((?:[^\n]* = [^\n]*\n)*)- ")
WRITES = ("x.alpha", "x.pg", "t.alpha", "t.pg")


def execute(ctx, c):
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        with open(os.path.join(d, "t.POMDP"), "w") as f:
            f.write(MODEL)
        with open(os.path.join(d, "in1"), "w") as f:
            f.write("0\n1 1\n\n")
        if c["cfgread"]:
            with open(os.path.join(d, "cfg"), "w") as f:
                f.write(c["config"])
        before = set(os.listdir(d))

        def shown(outp):
            for n in [outp] + [os.path.join(d, n) for n in set(os.listdir(d)) - before]:
                if os.path.isfile(n):
                    m = SHOWN.search(open(n, encoding="latin-1").read(100000))
                    if m:
                        return m
            return None

        r = fw.run([ctx.bin("pomdp-solve" if c["prog"] == "solve" else "pomdp-tools"), *c["args"]], d, timeout=20,
                   enough=shown)
        out = r.out
        new = sorted(set(os.listdir(d)) - before)
        m = SHOWN.search(out) or shown(os.devnull)
        rec = dict(c, status=r.status, wrote=bool(new), shown={"": ""}, pid="")
        if c["prog"] == "solve":
            rec["ran"] = bool(m)
            if m:
                rec["pid"] = m.group(1)
                rec["shown"] = dict(ln.split(" = ", 1) for ln in m.group(2).split("\n") if ln)
        else:
            rec["ran"] = not (r.status == "1" and "Usage:" in out)
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


INTS = ["1", "2", "5", "+3", "007", "010", "+0012", "2147483647"]
BADINTS = ["0", "-1", "x", "3x", "", "1.5", "2147483648", "99999999999999999999", "1e2", "+", " 4 ", "0x5", "5%", "3,", "4k", "1_0"]
DBLS = ["0", "0.5", "1e-3", "1", ".25", "2.5E-1", "+0.125", "5.e-1", "0.000001"]
BADDBLS = ["-1", "x", "0.5x", "", "1e", ".", "e5", "0.5 ", "--1", "1.2.3", "0.5%", "0,5", "1/2", "0.5f", "50%", "0.25d", "1e-1x"]
WORDS = ["a", "b.c", "some-thing", "1:2:3", "w_9"]
E = dict(save_penultimate="false true", stat_summary="false true", inc_prune="normal restricted_region generalized",
         fg_save="false true", enum_purge="none domonly normal_prune epsilon_prune",
         fg_type="simplex pairwise search initial", method="enum twopass linsup witness incprune grid mcgs",
         fg_purge="none domonly normal_prune epsilon_prune", dom_check="false true",
         q_purge="none domonly normal_prune epsilon_prune", proj_purge="none domonly normal_prune epsilon_prune",
         witness_points="false true", save_all="false true", stop_criteria="exact weak bellman",
         vi_variation="normal zlz adjustable_epsilon fixed_soln_size", verbose="context lp alpha pomdp mcgs")
I = "time_limit mcgs_prune_freq mcgs_traj_iter_count mcgs_num_traj mcgs_traj_length fg_points alg_rand prune_rand " \
    "history_length history_delta horizon".split()
D = "prune_epsilon fg_epsilon lp_epsilon epsilon end_epsilon start_epsilon stop_delta discount epsilon_adjust max_soln_size".split()
S = "stdout rand_seed terminal_values".split()


def value(rng, n, bad):
    if n in E:
        v = E[n].split()
        return rng.choice([rng.choice(v)[:-1], "TRUE", "1", "", "none ", rng.choice(v) + "x"]) if bad else rng.choice(v)
    if n in I:
        return rng.choice(BADINTS) if bad else rng.choice(INTS + (["0"] if n in ("alg_rand", "prune_rand") else []))
    if n in D:
        return rng.choice(BADDBLS + (["1.5", "1.0000001"] if n == "discount" else [])) if bad \
            else rng.choice(DBLS + ([] if n == "discount" else ["3.5", "12345.75", "1e7"]))
    return rng.choice(WORDS)


def blank(rng, some=False):
    return rng.choice([" ", "  ", "\t"] if some else ["", "", " ", "\t", "  "])


def layout(rng, pairs, faults):
    out = []
    for n, v in pairs:
        for _ in range(rng.choice([0, 0, 1])):
            out.append(rng.choice(["", "# note", "  ", " # a = b", "#"]))
        out.append(blank(rng) + n + blank(rng) + "=" + blank(rng) + v
                   + rng.choice(["", "", " ", " # c", "#c", "\t#=", "\r"]))
    for _ in range(faults):
        out.insert(rng.randint(0, len(out)), rng.choice(["word", "a b = c", "= 3", "horizon 3", "horizon = 3 4", "horizon == 3",
                                                         "save_all # = true", "bogus = 1", "horizon = 3 = 4", "o=y=z",
                                                         "k" * 1024 + "=1", "o = " + "v" * 1024, "h = true"]))
    return "\n".join(out) + rng.choice(["", "\n", "\n\n", "\r\n"])


def misnamed(rng):
    n = rng.choice(list(E) + I + D + S)
    return rng.choice([n + "x", n + "_1", n[:-1], n[1:], n.upper(), n.replace("_", "-"), n.replace("_", ""), n + n])


def randcase(rng):
    names = rng.sample(list(E) + I + D + S, rng.randint(0, 10))
    bad = rng.random() < .3
    cfg, cmd = {}, []
    used = rng.random() < .6
    for n in names:
        v = value(rng, n, bad and rng.random() < .25)
        w = rng.random()
        if used and w < .5 and not re.search(r"\s", v):
            cfg[n] = v
            if rng.random() < .3:
                cmd.append((n, value(rng, n, False)))
        else:
            cmd.append((n, v))
    cmd += [("pomdp", rng.choice(["t.POMDP", "t.POMDP", "./t.POMDP"]))] if not (used and rng.random() < .3) else []
    if not any(n == "pomdp" for n, _ in cmd):
        cfg["pomdp"] = "t.POMDP"
    w = rng.random()
    if w < .5:
        cmd.append(("o", rng.choice(["x", "x", "x.y", "solution", "y" * 90])))
    elif w < .7 and used:
        cfg["o"] = "x"
    cfgread = used
    if used:
        cmd.append(("f", "cfg"))
        if rng.random() < .04:
            cfgread = False
    elif rng.random() < .03:
        cmd.append(("f", "cfg"))
    if rng.random() < .05:
        cmd.append((rng.choice(["bogus", "Horizon", "hor", "horizons", "methods", "", misnamed(rng)]), "3"))
    if used and rng.random() < .06:
        cfg[misnamed(rng)] = "3"
    if rng.random() < .05 and cmd:
        cmd.append(rng.choice(cmd))
    rng.shuffle(cmd)
    args = []
    for n, v in cmd:
        if n in ("save_all", "save_penultimate", "stat_summary", "dom_check", "witness_points", "fg_save") and v == "true" \
                and rng.random() < .6:
            args.append(["-" + n])
        elif v.startswith("-"):
            args.append(["-" + n])
            args.append([v])
        else:
            args.append(["-" + n, v])
    for _ in range(rng.choice([0] * 12 + [1, 2])):
        args.append([rng.choice(["-save_all", "-horizon", "-h", "-bogus", "--horizon", "-", "-stat_summary", "-true"])])
    # a lone flag swallows the word that follows, so words are kept apart from it
    flat = [x for a in args for x in a]
    if rng.random() < .05:
        flat.insert(0, rng.choice(["word", "true"]))
    items = list(cfg.items())
    rng.shuffle(items)
    faults = 1 if used and rng.random() < .08 else 0
    text = layout(rng, items, faults) if used else ""
    if used and rng.random() < .03 and items:
        text += "\n%s = %s\n" % rng.choice(items)
    return dict(prog="solve", args=flat, config=text, cfgread=cfgread)


def toolcase(rng):
    opts = [("tool", rng.choice(["sort_alphas", "none", "pg_eval", "bogus", "sort_alphas", "sort_alphas"])), ("alpha1", "in1"),
            ("states", rng.choice(["2", "2", "0", "2x", "x", "2147483648"])), ("o", "res")]
    for n, vs in (("epsilon", ["1e-3", "0.5", "x", "-1"]), ("obs", ["1", "0", "q"]), ("pg1", ["p"]), ("pg2", ["p"]),
                  ("belief", ["b"]), ("alpha2", ["in1"]), ("horizon", ["3"]), ("alpha3", ["x"])):
        if rng.random() < .12:
            opts.append((n, rng.choice(vs)))
    rng.shuffle(opts)
    cfg = [x for x in opts if rng.random() < .3] if rng.random() < .4 else []
    args = []
    for n, v in opts:
        if (n, v) not in cfg:
            args += ["-" + n, v]
    if cfg:
        args += ["-f", "cfg"]
    return dict(prog="tools", args=args, config=layout(rng, cfg, 0) if cfg else "", cfgread=bool(cfg))


def c17(ctx):
    rng = ctx.rng()
    base = ["-pomdp", "t.POMDP", "-o", "x"]
    cases = []
    big = ctx.thorough()
    # every short configuration file and every short command line over small alphabets
    for n in range(0, 6 if big else 5):
        for t in itertools.product(["horizon", " ", "=", "2", "#", "\n", "save_all=true"][:7 if n < 5 else 6], repeat=n):
            s = "".join(t)
            if "\n" in s or n < 5:
                cases.append(dict(prog="solve", args=base + ["-f", "cfg"], config=s, cfgread=True))
    for n in range(0, 5 if big else 4):
        for t in itertools.product(["-horizon", "3", "x", "-save_all", "-1", "-", "true", "-bogus", "-h", ""], repeat=n):
            cases.append(dict(prog="solve", args=list(t) + base, config="", cfgread=False))
    # every option alone: each value given in each way
    for n in list(E) + I + D + S:
        vals = (E[n].split() + ["bad", ""]) if n in E else INTS + BADINTS if n in I else DBLS + BADDBLS if n in D else WORDS
        for k in (n + "x", n[:-1]):
            cases.append(dict(prog="solve", args=base + ["-f", "cfg"], config="%s = %s\n%s = %s\n" % (n, vals[1], k, vals[0]), cfgread=True))
            cases.append(dict(prog="solve", args=base + ["-" + n, vals[1], "-" + k, vals[0]], config="", cfgread=False))
        for v in vals:
            cases.append(dict(prog="solve", args=base + ["-" + n, v], config="", cfgread=False))
            if not re.search(r"\s", v):
                cases.append(dict(prog="solve", args=base + ["-f", "cfg"], config="%s = %s" % (n, v), cfgread=True))
    for n in (1, 99, 100, 101, 500, 1000, 1023, 1024, 1100):
        cases.append(dict(prog="solve", args=["-pomdp", "t.POMDP", "-rand_seed", "1" * n], config="", cfgread=False))
        cases.append(dict(prog="solve", args=base + ["-f", "cfg"], config="rand_seed = " + "1" * n, cfgread=True))
        cases.append(dict(prog="solve", args=["-pomdp", "./" * ((n - 1) // 2) + "t.POMDP", "-o", "./" * ((n - 1) // 2) + "x"],
                          config="", cfgread=False))
    for _ in range(20000 if big else 1500):
        cases.append(randcase(rng))
    for _ in range(2000 if big else 200):
        cases.append(toolcase(rng))
    # "-horizon" words swallow what follows: keep runs short anyway
    ctx.bin("pomdp-solve")
    ctx.bin("pomdp-tools")
    ctx.java()
    fw.conform(ctx, "TraceOptions", cases, lambda c: execute(ctx, c),
               describe=lambda c, r: "%s config %r" % (str(c["args"])[:200], c["config"][:150]), chunk=8000)


CHECKS = {"C17": c17}

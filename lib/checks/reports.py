"""C18: runs are reproducible, and what is only a report changes nothing and is right."""
import hashlib
import os
import re
import shutil
import tempfile

import fw
import models
import vi
from checks import solver

EPOCH = re.compile(r"Epoch: (\d+)\.\.\.(?:(\d+) DP vectors in \S+ secs\.\n  ZLZ: \.+)?"
                   r"(\d+) vectors in (-?[\d.]+) secs\. \((-?[\d.]+) total\) \(err=([^)]*)\)")
TIME = re.compile(r"^(User|System|Total execution) time = (-?\d+) hrs\., (-?\d+) mins, (-?[\d.]+) secs\. \(= (-?[\d.]+) secs\)$",
                  re.M)
CTX = re.compile(r"^\t(\S+) time: (-?[\d.]+) secs\.$", re.M)
ALL = re.compile(r"^  Total context time: (-?[\d.]+) secs\.$", re.M)
DEC = re.compile(r"^-?\d+\.\d\d$")


def report(text, skip):
    """The parts of a report that can be judged, and its text without what differs from run to run."""
    r = dict(ok=True, why="", text="", times=[], lines=[], summary=False, rows=[], totals=dict(t="0", c=[]),
             contexts=[], all="0")

    def bad(why):
        r.update(ok=False, why=why)
        return r
    for m in EPOCH.finditer(text):
        r["lines"].append(dict(n=m.group(1), k=m.group(3), t=m.group(4), tot=m.group(5), err=m.group(6)))
    ts = TIME.findall(text)
    if [t[0] for t in ts] != ["User", "System", "Total execution"]:
        return bad("times")
    r["times"] = [dict(h=t[1], m=t[2], s=t[3], t=t[4]) for t in ts]
    k = text.find("** Statistic Summary **")
    if k >= 0:
        r["summary"] = True
        rows = [x.split() for x in text[k:].split("\n")]
        for i, x in enumerate(rows):
            if re.match(r"^\d+$", x[0]) if x else False:
                if len(x) < 5 or not all(DEC.match(y) for y in [x[3]] + x[5:]):
                    return bad("row %s" % x)
                if x[4] != "N/A" and not re.match(r"^\d\.\d\de[-+]\d\d$", x[4]):
                    return bad("precision")
                r["rows"].append(dict(n=x[0], k=x[1], err=x[2], t=x[3], eps=x[4], c=x[5:]))
            if x and x[0] == "Totals":
                if len(x) < 2 or not all(DEC.match(y) for y in x[1:]):
                    return bad("totals")
                r["totals"] = dict(t=x[1], c=x[2:])
        r["contexts"] = [x[1] for x in CTX.findall(text)]
        al = ALL.findall(text)
        if len(al) != 1:
            return bad("contexts")
        r["all"] = al[0]
    elif CTX.search(text):
        r["summary"] = True
    # without times, the process number, and the settings that this run was given besides
    out = []
    for x in text.split("\n"):
        if re.match(r"^\s*PID=|.* time[ :]|\s*Totals", x) or any(x.startswith(s + " =") for s in skip):
            continue
        x = re.sub(r" in -?[\d.]+ secs\. \(-?[\d.]+ total\)", "", x)
        x = re.sub(r" in -?[\d.]+ secs\.", "", x)
        m = re.match(r"^( *\d+ +\d+ +\S+) +-?\d+\.\d\d +(\S+)( +-?\d+\.\d\d)+ *$", x)
        out.append(m.group(1) + " " + m.group(2) if m else x)
    r["text"] = "\n".join(out)
    if len(r["text"]) > 3000:
        r["text"] = r["text"][:200] + "..." + hashlib.sha256(r["text"].encode()).hexdigest()
    return r


def read(p):
    try:
        return open(p, encoding="latin-1").read()
    except OSError:
        return None


def short(t):
    return t if t is None or len(t) < 600 else t[:100] + "..." + hashlib.sha256(t.encode()).hexdigest()


def one(ctx, case, v):
    m = case["model"]
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        with open(os.path.join(d, "m.pomdp"), "w") as f:
            f.write(models.text(m))
        o = dict(pomdp="m.pomdp", o="out")
        if case["term"]:
            vi.write_alpha(os.path.join(d, "init.alpha"), case["term"])
            o["terminal_values"] = "init.alpha"
        o.update(case["opts"])
        o.update(v["opts"])
        words = vi.opts_of(o)
        names = {"m.pomdp"} | ({"init.alpha"} if case["term"] else set())
        if v.get("file"):
            with open(os.path.join(d, "conf"), "w") as f:
                for k, x in o.items():
                    f.write("%s = %s\n" % (k, "true" if x is True else x))
            words = ["-f", "conf"]
            names.add("conf")
        env = dict(LD_PRELOAD=case["clock"], CLOCK_STEP=str(v["step"]))
        r = fw.run([ctx.bin("pomdp-solve")] + words, d, timeout=12, env=env)
        if r.status == "timeout" or "with numerical instability" in r.out:     # (a warning in the middle of a line)
            return None
        tofile = "stdout" in o
        text = read(os.path.join(d, o["stdout"])) or "" if tofile else r.out
        rep = report(text, ["stdout", "f"])
        n = len(rep["lines"])
        p = o["o"]
        want = [p + ".alpha", p + ".pg"]
        if "save_all" in o:
            want += [p + ".alpha%d" % (i + 1) for i in range(n)]
            want += [p + ".pg%d" % (i + 1) for i in range(n) if o.get("vi_variation") != "zlz"]
        if "save_penultimate" in o and n > 1:
            want.append(p + ".prev.alpha")
        if tofile:
            want.append(o["stdout"])
        if "fg_save" in o and o.get("method") == "grid":
            want.append(p + ".belief")
        files = [f for f in os.listdir(d) if f not in names]
        seed = {k: x for k, x in v["opts"].items() if k == "rand_seed"}
        values = read(os.path.join(d, p + ".alpha"))
        if values and o.get("vi_variation") == "zlz":
            # it works on the list in the order it has, which saving sorts: sums are rounded in another order
            values = re.sub(r"-?\d+\.\d+", lambda q: "%.7f" % (float(q.group(0)) + 1.23e-8), values)
        result = [short(values) or "none", short(read(os.path.join(d, p + ".pg"))) or "none",
                  "; ".join("%s %s %s" % (x["n"], x["k"], x["err"]) for x in rep["lines"])]
        if v["kind"] != "other" and sum(os.path.getsize(os.path.join(d, f)) for f in files) > 4000000:
            return None
        return dict(cmd=" ".join(words), status=r.status, key=str(sorted(seed.items())),
                    cmdkey=str(sorted((k, str(x)) for k, x in o.items() if k != "stdout")), result=result, files=files,
                    want=want, tofile=tofile, stdout=r.out[:300] if tofile else "", summary="stat_summary" in o,
                    variation=o.get("vi_variation", "normal"), report=rep,
                    peps=str(o.get("prune_epsilon", "1e-9")) if o.get("q_purge") == "epsilon_prune"
                    and o["method"] in ("twopass", "witness", "incprune") else "none")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def group(ctx, case):
    runs = []
    for v in case["variants"]:
        x = one(ctx, case, v)
        if x is None:
            return None
        runs.append(x)
    return dict(id=case["id"], cmd=runs[0]["cmd"], runs=runs)


def c18(ctx):
    ctx.guard = False           # the clock is preloaded, which the memory checks do not allow
    rng = ctx.rng()
    ctx.bin("pomdp-solve")
    ctx.java()
    clock = ctx.build.shared("clock")
    cases = []
    for i in range(8000 if ctx.thorough() else 1200):
        m = models.gen(rng, **solver.size_for(rng, i))
        o = solver.method_opts(rng, m=m)
        seed = dict(rand_seed="%d:%d:%d" % tuple(rng.randint(0, 65535) for _ in range(3)))
        drawn = rng.random() < .7
        for k in ("alg_rand", "prune_rand"):
            o.pop(k, None)
        if drawn:       # coarse enough for the draws to matter
            o[rng.choice(["alg_rand", "prune_rand"])] = rng.choice([1, 2, 3, 8])
            if rng.random() < .5:
                o["prune_rand"] = rng.choice([1, 2, 5])
            if rng.random() < .7:
                o["epsilon"] = rng.choice(["0.01", "0.1", "0.5"])
            elif rng.random() < .7:
                o["enum_purge" if o["method"] == "enum" else "q_purge"] = "epsilon_prune"
                o["prune_epsilon"] = rng.choice(["0.01", "0.1", "0.5", "2"])
        if rng.random() < .12:
            o = dict(method="grid", fg_points=rng.choice([3, 10, 30]), fg_type=rng.choice(["search", "initial", "pairwise", "simplex"]))
            drawn = rng.random() < .3
        o["horizon"] = max(1, solver.horizon_for(rng, m, 2) - 1)
        if rng.random() < .2:
            o["vi_variation"] = rng.choice(["adjustable_epsilon", "adjustable_epsilon", "zlz"])
            if o["vi_variation"] == "zlz" and (m["g"] == "1" or o.get("method") == "grid" or float(o.get("epsilon", "0")) > 0
                                             or "epsilon_prune" in o.values()):
                del o["vi_variation"]
        v = [dict(kind="same", opts={}), dict(kind="same", opts={})]
        for k in range(5):
            x = {}
            if rng.random() < .4:
                x["stat_summary"] = True
            if rng.random() < .3:
                x["save_all"] = True
            if rng.random() < .3:
                x["save_penultimate"] = True
            if rng.random() < .4:
                x["stdout"] = rng.choice(["report", "r.txt", "out.report"])
            if rng.random() < .3:
                x["o"] = rng.choice(["res", "out2", "a.b"])
            if rng.random() < .2:
                x["verbose"] = rng.choice(["context", "lp", "global", "pomdp_solve"][:1])
            if rng.random() < .2:
                x["fg_save"] = True
            v.append(dict(kind="reporting", opts=x, file=rng.random() < .25))
        v.append(dict(v[rng.randrange(2, len(v))]))
        if drawn:
            for x in v:
                x["opts"] = dict(x["opts"], **seed)
        for x in v:
            x["step"] = rng.choice([0, 3, 300, 100000])
        cases.append(dict(id=str(i), model=m, opts=o, variants=v, clock=clock,
                          term=solver.terminal(rng, m) if rng.random() < .3 else None))
    fw.conform(ctx, "TraceReport", cases, lambda c: group(ctx, c), describe=lambda c, r: "")


CHECKS = {"C18": c18}

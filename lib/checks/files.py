"""C07-C09: what a POMDP file means, and which files are rejected."""
import concurrent.futures as cf
import json
import os
import subprocess

import fw
import pfile

CFG = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Family = \"%s\"\nCONSTANT Wide = %s\n"
       "INVARIANT TablesRight\nINVARIANT Distributions\n")


def families(ctx, todo):
    """Has TLC enumerate families of files; their token sequences."""
    def go(x):
        r = ctx.tlc("GenFile", CFG % x, workers=4, timeout=1500)
        if r.rc:
            raise fw.MachineryError("GenFile %s: %s" % (x, r.error))
        return [y["toks"] for y in r.lines]
    ctx.java()
    with cf.ThreadPoolExecutor(3) as ex:
        parts = list(ex.map(go, todo))
    ctx.cov["enumerated_files"] = {"%s%s" % (a, " wide" if b == "TRUE" else ""): len(p)
                                   for (a, b), p in zip(todo, parts)}
    return [t for p in parts for t in p]


def batch(ctx, items, tag):
    """Lets the parser read the files (token list, text); records for TraceFile."""
    h = ctx.build.harness("parse")
    d = os.path.join(ctx.scratch, "files_" + tag)
    os.makedirs(d, exist_ok=True)
    names = []
    for k, (toks, text) in enumerate(items):
        p = os.path.join(d, "%d" % k)
        with open(p, "w", newline="", encoding="latin-1") as f:
            f.write(text)
        names.append(p)

    def go(part):
        subprocess.run([h] + part, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
        return None
    fw.pmap(go, [names[i:i + 200] for i in range(0, len(names), 200)])
    recs = []
    for (toks, text), p in zip(items, names):
        try:
            with open(p + ".json") as f:
                r = json.load(f)
        except (OSError, ValueError):
            r = {"status": "no answer"}
        r["toks"] = toks
        recs.append(r)
        for q in (p, p + ".json"):
            if os.path.exists(q):
                os.unlink(q)
    return recs


def judge(ctx, items, runner, clauses, tag):
    """Runs and validates; a rejection has to repeat."""
    for k in range(0, len(items), 20000):
        part = items[k:k + 20000]
        recs = runner(part, tag)
        bad = fw.validate(ctx, "TraceFile", recs, timeout=1500)
        ctx.traces += len(recs)
        for r in recs[:2]:
            ctx.sample({x: r[x] for x in r if x != "dump"})
        sus = [i for i, b in enumerate(bad) if any(x["bad"] in clauses for x in b)][:40]
        if not sus:
            continue
        recs2 = runner([part[i] for i in sus], tag + "r")
        bad2 = fw.validate(ctx, "TraceFile", recs2, count=False)
        for i, b2 in zip(sus, bad2):
            k1 = {x["bad"] for x in bad[i] if x["bad"] in clauses}
            for x in b2:
                if x["bad"] in k1:
                    ctx.violation("%s: %s in the file: %s" % (x["bad"], x["at"][:200],
                                                            " ".join(part[i][1].split())[:300]),
                                  {"text": part[i][1], "record": recs[i]})
                    break


def corpus(ctx, n, salt, broken):
    rng = ctx.rng(salt)
    out = []
    for _ in range(n):
        st = pfile.Gen(rng).file()
        if broken:
            for _ in range(rng.choice([1, 1, 1, 2])):
                if st:
                    st = pfile.mutate(rng, st)
        t = pfile.flat(st)
        out.append((t, pfile.render(rng, t)))
    return out


def larger(ctx, n):
    """Files of models with more of one or two kinds, and many rewards."""
    rng = ctx.rng("larger")
    out = []
    while len(out) < n:
        k = [rng.choice([1, 2, 3, 5, 7, 9, 12, 17]) for _ in range(3)]
        if not 5 <= max(k) or k[0] * k[0] * k[1] * k[2] > 700:
            continue
        t = pfile.flat(pfile.Gen(rng, *k, nr=rng.choice([5, 12, 25])).file())
        out.append((t, pfile.render(rng, t)))
    return out


def rendered(ctx, toks):
    rng = ctx.rng("render")
    return [(t, pfile.render(rng, t)) for t in toks]


MEAN = {"died", "refused", "sizes", "discount", "values", "transition", "observation", "reward", "expected-reward"}


def c07(ctx):
    th = ctx.thorough()
    w = "TRUE" if th else "FALSE"
    items = rendered(ctx, families(ctx, [("R", w), ("T", w), ("O", w)]))
    items += corpus(ctx, 40000 if th else 2200, "good", False) + larger(ctx, 3000 if th else 150)
    judge(ctx, items, lambda p, t: batch(ctx, p, t), MEAN, "m")
    return "model_checking"


def c08(ctx):
    th = ctx.thorough()
    w = "TRUE" if th else "FALSE"
    items = rendered(ctx, families(ctx, [("preamble", "TRUE"), ("T", w), ("O", w), ("start", "TRUE")]))
    items += corpus(ctx, 60000 if th else 4000, "broken", True)
    judge(ctx, items, lambda p, t: batch(ctx, p, t), {"died", "accepted", "refused"}, "r")
    # the program itself, on some of them: nothing is written for a rejected file
    exe = ctx.bin("pomdp-solve")
    its = corpus(ctx, 6000 if th else 500, "cli", True)

    def runner(part, tag):
        def one(x):
            k, (toks, text) = x
            d = os.path.join(ctx.scratch, "cli%s%d" % (tag, k))
            os.makedirs(d)
            with open(os.path.join(d, "m.pomdp"), "w", newline="", encoding="latin-1") as f:
                f.write(text)
            r = fw.run([exe, "-pomdp", "m.pomdp", "-o", "out", "-horizon", "1", "-fg_points", "5",
                        "-method", "grid"], d, timeout=20)
            left = sorted(x for x in os.listdir(d) if x != "m.pomdp")
            st = r.status
            if st == "0" and "out.alpha" in left:
                st = "ok"
            elif r.status not in ("0",) and not r.status.startswith("signal") and r.status != "timeout" \
                    and not left and r.out.strip():
                st = "rejected"
            else:
                st = "%s, files %s, %d characters of output" % (r.status, left, len(r.out.strip()))
            for x in os.listdir(d):
                os.unlink(os.path.join(d, x))
            os.rmdir(d)
            return {"toks": toks, "status": st}
        return fw.pmap(one, list(enumerate(part)))
    judge(ctx, its, runner, {"died", "accepted", "refused"}, "c")
    return "model_checking"


def c09(ctx):
    th = ctx.thorough()
    items = rendered(ctx, families(ctx, [("start", "TRUE")]))
    items += corpus(ctx, 30000 if th else 2000, "start", False)
    judge(ctx, items, lambda p, t: batch(ctx, p, t), {"died", "refused", "start", "accepted"}, "s")
    return "model_checking"


CHECKS = {"C07": c07, "C08": c08, "C09": c09}

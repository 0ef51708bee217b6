"""C21: lists of vectors and points are the sequences they stand for.
C22: sparse matrices, tables of options and index lists hold what was stored."""
import concurrent.futures as cf
import itertools
import json
import os
import random
import subprocess
import time

import fw

DONE = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
ALL = ["append", "prepend", "unique", "dequeue", "size", "maxsize", "find", "query", "extractvec", "removevec", "extract",
       "foreign", "mark", "clearmarks", "markall", "unmarked", "allmarked", "findunmarked", "extractunmarked", "markdominated",
       "dominated", "removedominated", "removemarked", "extractmarked", "best", "bestover", "removebest", "sort", "copy", "dupw",
       "copynode", "witness", "union", "same", "similar", "renumber", "clear"]
POINTS = ["append", "prepend", "dequeue", "size", "find", "query", "copy", "copynode", "union", "same", "similar", "renumber",
          "clear"]
PURE = ["vsame", "vzero", "vlex", "vdom", "vcopy"]
EMPTY = {"A": [], "B": []}


def gen(ctx, kinds, depth, maxa, maxb, vecs, acts):
    cfg = (DONE + "VIEW View\nINVARIANT Conserved\nINVARIANT DominanceStrict\nINVARIANT BestIsBest\n"
           "INVARIANT SimilarSymmetric\nINVARIANT SameThenSimilar\nINVARIANT SortExists\n"
           "CONSTANTS MaxA = %d\nMaxB = %d\nDepth = %d\nKinds = {%s}\nVecs <- VecsC\nActs = {%s}\nSorts = 3\n"
           % (maxa, maxb, depth, ", ".join('"%s"' % k for k in kinds), ", ".join(map(str, acts))))
    mod = ("------ MODULE GenC ------\nEXTENDS GenCollections\nVecsC == {%s}\n======\n"
           % ", ".join("<<%s>>" % ", ".join(map(str, v)) for v in vecs))
    r = ctx.tlc("GenC", cfg, timeout=2000, files=[("GenC.tla", mod)], workers=4)
    if r.rc:
        raise fw.MachineryError("GenCollections: %s" % r.error)
    return [x["ops"] for x in r.lines]


def line(o, n):
    v = (list(o["v"]) + [0] * n)[:n]
    u = (list(o.get("u", [])) + [0] * n)[:n]
    return "%s %s %d %d %d %d %s" % (o["k"], o["l"], o["a"], o["t"], o["i"], o["e"], " ".join(map(str, v + u)))


def store_line(o):
    return "%s %d %d %d %s %s" % (o["k"], o["i"], o["j"], o["x"], o["key"] or "-", o["val"] or "-")


def apply(ctx, h, kind, n, scripts, last=False):
    """Runs scripts on the program's collections; a record per operation (or per script, of its last one)."""
    d = os.path.join(ctx.scratch, "coll")
    os.makedirs(d, exist_ok=True)

    def go(part):
        fn = os.path.join(d, "s%d" % random.randrange(10 ** 12))
        with open(fn, "w") as f:
            for s in part:
                if kind == "stores":
                    f.write("! %d %d %d\n" % n + "".join(store_line(o) + "\n" for o in s))
                else:
                    f.write("!\n" + "".join(line(o, n) + "\n" for o in s))
        try:
            p = subprocess.run([h, fn] if kind == "stores" else [h, kind, str(n), fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
            out = p.stdout.decode("latin-1").splitlines()
            why = "the program ended (%d)" % p.returncode
        except subprocess.TimeoutExpired as x:
            out = (x.stdout or b"").decode("latin-1").splitlines()
            why = "the program did not end"
        os.unlink(fn)
        recs, k = [], 0
        start = EMPTY
        if kind == "stores":
            start = {"m": [[0] * n[1] for _ in range(n[0])], "cap": n[2], "keys": [], "vals": [], "x": []}
        for s in part:
            pre, mine = start, []
            for j, o in enumerate(s):
                if k >= len(out) or not out[k].endswith("}"):
                    mine.append({"pre": pre, "op": o, "post": pre, "r": 0, "ok": why, "script": s[:j + 1]})
                    return recs + (mine[-1:] if last else mine)
                x = json.loads(out[k])
                k += 1
                if "skip" in x:         # not an operation in this state
                    continue
                mine.append({"pre": pre, "op": o, "post": x["post"], "r": x["r"], "ok": x["ok"], "script": s[:j + 1]})
                pre = x["post"]
                if x["ok"] != "ok":
                    return recs + mine
            recs += mine[-1:] if last else mine
        return recs
    parts = [scripts[i:i + 300] for i in range(0, len(scripts), 300)]
    return [r for p in fw.pmap(go, parts) for r in p]


def judge(ctx, recs, module, rerun, chunk=90000):
    """recs: (how to run it again, record)"""
    def bare(r):
        return {a: b for a, b in r.items() if a != "script"}
    for k in range(0, len(recs), chunk):
        part = recs[k:k + chunk]
        t0 = time.time()
        bad = fw.validate(ctx, module, [bare(r) for _, r in part])
        if os.environ.get("VERIF_TIMES"):
            print("%s: %d steps %.1f s" % (module, len(part), time.time() - t0))
        for (how, r), b in [x for x in zip(part, bad) if x[1]][:10]:
            b2 = fw.validate(ctx, module, [bare(x) for x in rerun(how, [r["script"]])], count=False)
            both = [y for x in b2 for y in x if y["bad"] in {z["bad"] for z in b}]
            if both:
                ctx.violation("%s %s" % (both[0]["bad"], both[0]["at"][:500]), {"script": r["script"], "clauses": both[:4]})
                return
        for _, r in part[:2]:
            ctx.sample(r)
        ctx.traces += len(part)


def script(rng, n, kinds, length, vals):
    """A random course of operations."""
    out = []
    pool = [[rng.choice(vals) for _ in range(n)] for _ in range(rng.randint(2, 6))]
    for t in range(1, length + 1):
        k = rng.choice(kinds if rng.random() < .6 else ["append", "append", "prepend"])
        o = {"k": k, "l": rng.choice("AAB"), "a": rng.randrange(3) if "best" in kinds else 0, "v": list(rng.choice(pool)), "u": list(rng.choice(pool)),
             "t": t, "i": rng.randint(1, 6), "e": rng.choice([0, 0, 1])}
        if rng.random() < .3:
            o["v"] = [rng.choice(vals) for _ in range(n)]
        if k in ("best", "removebest", "bestover"):
            o["v"] = [rng.randrange(3) for _ in range(n)]
            if k == "bestover":
                o["i"] = rng.randint(-4, 8)
        if k == "witness":
            o["a"] = rng.randint(1, 8)
        out.append(o)
    return out


def c21(ctx):
    h = ctx.build.harness("coll", extra_src=("src/double-vector.c",))
    rng = ctx.rng()
    th = ctx.thorough()

    def rerun(how, scripts):
        return apply(ctx, h, how[0], how[1], scripts, how[2])
    two = [(0, 0), (1, 0), (1, 1)]
    with cf.ThreadPoolExecutor(2) as ex:
        ctx.java()
        fa = ex.submit(gen, ctx, ALL, 5 if th else 4, 3, 2, two, [0])
        fp = ex.submit(gen, ctx, POINTS, 6 if th else 5, 3, 2, two, [0])
        sa, sp = fa.result(), fp.result()
    ctx.cov["transitions_replayed"] = {"alpha": len(sa), "points": len(sp)}
    recs = []

    def add(how, scripts):
        r = rerun(how, scripts)
        recs.extend((how, x) for x in r)
        return len(r)
    add(("alpha", 2, True), sa)
    add(("points", 2, True), sp)
    total = 0
    for kind, kinds in (("alpha", ALL + PURE), ("points", POINTS + PURE)):
        for n in (1, 2, 3):
            total += add((kind, n, False), [script(rng, n, kinds, rng.randint(5, 40), [-1, 0, 1, 2] if rng.random() < .8
                                                   else [-3, 0, 3, 5]) for _ in range(2000 if th else 150)])
    ctx.cov["random_operations"] = total
    judge(ctx, recs, "TraceCollections", rerun)
    return "model_checking"


STORES = ["set", "set", "accumulate", "accumulate", "rowsum", "put", "put", "get", "entries", "index", "index", "indices"]


def course(rng, size, length):
    """A random course of operations on the stores."""
    kinds = [k for k in STORES if rng.random() < .7] or STORES
    names = ["", "a", "ab", "A", "b", "aa", "stop_delta", "stop_delta_", "x" * 40][:rng.randint(2, 9)]
    if rng.random() < .4:       # names that part late, or in letter case
        long = "".join(rng.choice("abxyz_") for _ in range(58))
        names = [n for c in rng.sample(range(1, 58), 4) for n in (long[:c] + "p", long[:c] + "q", long[:c] + "P")]
    vals = ["1", "v", "22", "1e-9", "y" * 40, "y" * 39 + "z", "y" * 60]
    out = []
    for _ in range(length):
        k = rng.choice(kinds) if rng.random() < .98 else "fresh"
        out.append({"k": k, "i": rng.randint(1, size[0]), "j": rng.randint(1, size[1]),
                    "x": rng.choice([-2, -1, 0, 0, 1, 1, 2, 3]) if k in ("set", "accumulate") else rng.randint(-5, 99),
                    "key": rng.choice(names), "val": rng.choice(vals)})
    return out


def tour(size, rowed):
    """All short courses on one row (or one table)."""
    def op(k, j=1, x=0, key="a", val="v"):
        return {"k": k, "i": 1, "j": j, "x": x, "key": key, "val": val}
    if rowed:
        ops = [op(k, j, x) for k in ("set", "accumulate") for j in range(1, size[1] + 1) for x in (0, 1, 2)
               if not (k == "accumulate" and x == 0)]
    else:
        ops = [op("put", key=k, val=v) for k in ("", "a", "ab", "b") for v in ("v", "w")] + [op("get", key="ab"), op("entries")]
    return ops


def c22(ctx):
    h = ctx.build.harness("stores", extra_src=("src/index-list.c",))
    rng = ctx.rng()
    th = ctx.thorough()

    def rerun(how, scripts):
        return apply(ctx, h, "stores", how[0], scripts, how[1])
    recs = []

    def add(how, scripts):
        r = rerun(how, scripts)
        recs.extend((how, x) for x in r)
        return len(r)
    n = 0
    for size, rowed in (((1, 3, 2), True), ((1, 1, 2), False)):
        for depth in (1, 2, 3, 4) if th else (1, 2, 3):
            n += add((size, True), [list(t) for t in itertools.product(tour(size, rowed), repeat=depth)])
    ctx.cov["exhaustive_courses"] = n
    n = 0
    for size in ((1, 1, 1), (2, 3, 3), (3, 5, 9), (4, 8, 5)):
        n += add((size, False), [course(rng, size, rng.randint(5, 40)) for _ in range(2500 if th else 150)])
    for size in ((2, 30, 20), (12, 40, 40), (1, 150, 100)):     # long ones, seen at the end
        n += add((size, True), [course(rng, size, rng.randint(100, 500)) for _ in range(300 if th else 40)])
    n += add(((1, 1, 1), True), [[{"k": "index", "i": 1, "j": 1, "x": q, "key": "a", "val": "v"} for q in range(m)]
                                 for m in (9, 10, 11, 19, 20, 21, 40, 41, 79, 80, 81, 200, 320, 321, 640, 641, 1300)])
    ctx.cov["random_operations"] = n
    judge(ctx, recs, "TraceStores", rerun)
    return "model_checking"


CHECKS = {"C21": c21, "C22": c22}

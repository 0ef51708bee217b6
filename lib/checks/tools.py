"""C13-C16: runs of pomdp-tools against Tools.tla and Tracker.tla."""
import itertools
import os
import re
import select
import shutil
import subprocess
import tempfile
import time
from fractions import Fraction as F

import fw
import models
import vi

KEEP = ("sort", "purge")


def tool(ctx, d, name, **kw):
    cmd = [ctx.bin("pomdp-tools"), "-tool", name]
    for k, v in kw.items():
        cmd += ["-" + k, str(v)]
    return fw.run(cmd, d, timeout=20)


def alpha_text(rng, al):
    return "".join("%d\n%s\n\n" % (x["a"], " ".join(x["v"])) for x in al)


def put(d, name, text):
    with open(os.path.join(d, name), "w") as f:
        f.write(text)


def get(d, name):
    p = os.path.join(d, name)
    return open(p, encoding="latin-1").read() if os.path.exists(p) else None


class Unread(Exception):
    pass


def ints(s):
    return [int(x) for x in s.split()]


MAPB = re.compile(r"Belief\[(\d+)\]:\n  Best Alpha Indices: ((?:\d+ )*)( \(non-unique\))?\n"
                  r"Best Alpha Value: (-?[\d.]+)\n")
MAPA = re.compile(r"Alpha\[(\d+)\]:\n  Uniquely best:(?:  (NONE)[^\n]*|((?: \d+)*))\n"
                  r"  Non-uniquely best:(?:  (NONE)|((?: \d+)*))\n")


def mapping(text):
    m = re.search(r"Belief List: (\d+) points\nAlpha List (\d+) vectors", text)
    if not m:
        raise Unread("counts")
    return dict(nb=int(m.group(1)), na=int(m.group(2)),
                bel=[dict(i=int(x[0]), best=ints(x[1]), multi=bool(x[2]), v=vi.trim(x[3])) for x in MAPB.findall(text)],
                al=[dict(i=int(x[0]), uniq=ints(x[2]), multi=ints(x[4])) for x in MAPA.findall(text)])


CMPB = re.compile(r"Belief\[(\d+)\]:\n  \[\1\] Best Alpha1 Indices: ((?:\d+ )*)\n  \[\1\] Best Alpha1 Value: (-?[\d.]+)\n"
                  r"  \[\1\] Best Alpha2 Indices: ((?:\d+ )*)\n  \[\1\] Best Alpha2 Value: (-?[\d.]+)\n"
                  r"  \[\1\] Difference: (-?[\d.]+)( \(non-zero\))?\n")
SUM = re.compile(r"Number of beliefs with value difference: (\d+)\nBelief indices with diffs:((?: \d+)*)\n"
                 r"Maximal difference: +(\S+) \((\d+) points\)\nBelief indices with maximal diffs:((?: \d+)*)\n")
LINE = re.compile(r"Index (\d+) \[action=(-?\d+)\](: NONE, best is )?((?:: \d+ \[diff=[^]]*\]  ?(?:\(ACTION DIFFERS\) )?)+)$")
ITEM = re.compile(r": (\d+) \[diff=([-+.e\d]+), action=(-?\d+)\]  ?(\(ACTION DIFFERS\) )?")


def compare_report(text):
    out = []
    for ln in text.split("\n"):
        if not ln.startswith("Index"):
            continue
        m = LINE.match(ln)
        if not m:
            raise Unread(ln)
        it = ITEM.findall(m.group(4))
        out.append(dict(i=int(m.group(1)), a=int(m.group(2)), none=bool(m.group(3)), differs=bool(it[0][3]),
                        list=[dict(j=int(x[0]), d=x[1], a=int(x[2])) for x in it]))
    return out


def pg_text(rng, pg):
    rows = ["%d %d  %s" % (p["id"], p["a"], " ".join(p.get("mark", "-") if x == -1 else str(x) for x in p["l"]))
            for p in pg]
    return rows


def execute(ctx, c):
    d = tempfile.mkdtemp(dir=ctx.scratch)
    k = c["kind"]
    rec = {x: c[x] for x in ("kind", "ns", "in1", "in2", "eps", "beliefs", "pg", "model", "start") if x in c}
    try:
        for n in ("in1", "in2"):
            if n in c:
                put(d, n, alpha_text(None, c[n]))
        if "beliefs" in c:
            put(d, "bel", "".join(" ".join(b) + "\n" for b in c["beliefs"]))
        for n, t in c.get("files", {}).items():
            put(d, n, t)
        eps = {"epsilon": c["eps"]} if c.get("eps") else {}
        try:
            if k in ("sort", "purge"):
                r = tool(ctx, d, "%s_alphas" % k, states=c["ns"], alpha1="in1", o="res")
                out = vi.read_alpha(os.path.join(d, "res"), c["ns"])
                rec.update(wrote=out is not None, out=out or [])
                if k == "purge":
                    m = re.search(r"Input Alpha Count: (\d+)\nOuput Alpha Count: (\d+)", r.out)
                    rec.update(nin=int(m.group(1)) if m else -1, nout=int(m.group(2)) if m else -1)
            elif k == "compare":
                r = tool(ctx, d, "compare_alphas", states=c["ns"], alpha1="in1", alpha2="in2", o="res", **eps)
                rec["rep"] = compare_report(get(d, "res") or "")
                rec.setdefault("eps", "1e-9")
            elif k == "map":
                r = tool(ctx, d, "map_beliefs", states=c["ns"], alpha1="in1", belief="bel", o="res", **eps)
                rec["rep"] = mapping(get(d, "res") or "")
            elif k == "values":
                r = tool(ctx, d, "belief_alpha_compare", states=c["ns"], alpha1="in1", alpha2="in2", belief="bel", o="res", **eps)
                t = (get(d, "res") or "").split("==============\nBelief Mapping\n==============\n")
                if len(t) != 3:
                    raise Unread("sections")
                rec["rep1"] = mapping(t[1])
                rec["rep2"] = mapping(t[2])
                x = CMPB.findall(t[2])
                rec["cmp"] = [dict(best1=ints(y[1]), v1=vi.trim(y[2]), best2=ints(y[3]), v2=vi.trim(y[4]), d=vi.trim(y[5]),
                                   nz=bool(y[6])) for y in x]
                m = SUM.search(t[2])
                if not m:
                    raise Unread("summary")
                rec["sum"] = dict(n=int(m.group(1)), diffs=ints(m.group(2)), max="0" if "inf" in m.group(3) else m.group(3),
                                  nmax=int(m.group(4)), maxs=ints(m.group(5)))
            elif k == "relink":
                r = tool(ctx, d, "pg_relink", pomdp="m.pomdp", alpha1="in1", alpha2="in2", pg1="pg", o="res")
                out = vi.read_pg(os.path.join(d, "res"))
                rec.update(wrote=out is not None, rep=out or [])
            elif k == "pgeval":
                r = tool(ctx, d, "pg_eval", pomdp="m.pomdp", pg1="pg")
                m = re.search(r"Solution found is:\n((?:[-\d. ]+\n)*)Initial belief state value: (-?[\d.]+) at node (-?\d+)\n",
                              r.out)
                rec.update(solved=bool(m), sol=[ln.split() for ln in m.group(1).split("\n") if ln.strip()] if m else [],
                           val=m.group(2) if m else "0", node=int(m.group(3)) if m else -1)
                if m and abs(rec["node"]) > 10 ** 6:
                    rec["node"] = -1
            elif k == "unreadable":
                r = tool(ctx, d, c["tool"], **c["args"])
                rec["wrote"] = bool(get(d, "res")) and c["tool"] != "map_beliefs"
            rec["status"] = r.status
        except (Unread, ValueError, IndexError) as e:
            rec["status"] = "unreadable report: %s" % str(e)[:80]
            rec.update(rep=[], rep1={}, rep2={}, cmp=[], sum={})
        rec.pop("model", None) if k == "relink" else None
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


def describe(c, r):
    return "%s %s" % (c["kind"], str({k: c[k] for k in ("ns", "in1", "in2", "eps", "beliefs", "pg", "tool", "args") if k in c})[:300])


# ------------------------------------------------------------------- generators
def vec(rng, n, step, lo=-8, hi=8):
    return [models.dec(F(rng.randint(lo, hi), step)) for _ in range(n)]


def alist(rng, ns, n, step, na=3):
    out = []
    for _ in range(n):
        if out and rng.random() < .15:
            v = list(rng.choice(out)["v"])
            if rng.random() < .5:
                v[rng.randrange(ns)] = models.dec(F(rng.randint(-8, 8), step))
        else:
            v = vec(rng, ns, step)
        out.append(dict(a=rng.randrange(na), v=v))
    return out


def envelope(rng, ns, n, step):
    """vectors many of which are useful (tangents of a convex function)"""
    out = []
    for _ in range(n):
        b = [F(x) for x in models.dist(rng, ns, 20)]
        # gradient of |b|^2, rounded
        nrm = sum(x * x for x in b)
        v = [2 * x - nrm for x in b]
        out.append(dict(a=rng.randrange(3), v=[models.dec(F(round(x * 4 * step), 4 * step)) for x in v]))
    return out


def small_lists(vals, ns, upto):
    vs = list(itertools.product(vals, repeat=ns))
    for n in range(1, upto + 1):
        for t in itertools.product(vs, repeat=n):
            yield [dict(a=i % 2, v=[str(x) for x in v]) for i, v in enumerate(t)]


def go(ctx, cases, clauses=None):
    ctx.bin("pomdp-tools")
    ctx.java()
    fw.conform(ctx, "TraceTools", cases, lambda c: execute(ctx, c), describe=describe, chunk=3000)


def c13(ctx):
    rng = ctx.rng()
    cases = []
    for al in small_lists((0, 1, 2), 2, 3):
        for k in KEEP:
            cases.append(dict(kind=k, ns=2, in1=al))
    if ctx.thorough():
        for al in small_lists((0, 1), 3, 3):
            cases.append(dict(kind="purge", ns=3, in1=al))
        for al in small_lists((0, 1, 2, 3), 2, 3):
            cases.append(dict(kind="purge", ns=2, in1=al))
    for i in range(4000 if ctx.thorough() else 500):
        k = rng.choice(KEEP)
        ns = rng.choice([1, 2, 2, 3, 3]) if k == "purge" else rng.randint(1, 6)
        n = rng.randint(1, 12)
        step = rng.choice([1, 2, 4, 10, 1000])
        al = alist(rng, ns, n, step) if rng.random() < .6 else envelope(rng, ns, n, step * 25)
        rng.shuffle(al)
        cases.append(dict(kind=k, ns=ns, in1=al))
    for t in BADTEXT:
        for name in ("sort_alphas", "purge_alphas"):
            cases.append(dict(kind="unreadable", tool=name, files=dict(bad=t), args=dict(states=2, alpha1="bad", o="res")))
    cases.append(dict(kind="unreadable", tool="sort_alphas", files={}, args=dict(states=2, alpha1="none", o="res")))
    go(ctx, cases)


BADTEXT = ["0\n1 x\n", "word\n", "0\n1\n", "0\n1 2\n\n1\n0.5 oops\n", "0\n1 2\n\nend\n", "1\n"]


def c14(ctx):
    rng = ctx.rng()
    cases = []
    small = list(small_lists((0, 1), 2, 2))
    bs2 = [["0", "1"], ["1", "0"], ["0.5", "0.5"]]
    for x in small:
        for y in small:
            cases.append(dict(kind="compare", ns=2, in1=x, in2=y))
            cases.append(dict(kind="values", ns=2, in1=x, in2=y, beliefs=bs2))
    for i in range(4000 if ctx.thorough() else 600):
        k = rng.choice(["compare", "map", "values"])
        ns = rng.randint(1, 5)
        step = rng.choice([1, 2, 4, 8])
        c = dict(kind=k, ns=ns, in1=alist(rng, ns, rng.randint(1, 9), step))
        if k != "map":
            if rng.random() < .5:
                c["in2"] = alist(rng, ns, rng.randint(1, 9), step)
            else:
                c["in2"] = [dict(a=rng.choice([x["a"], rng.randrange(3)]), v=list(x["v"])) for x in c["in1"]]
                rng.shuffle(c["in2"])
        if k == "compare":
            if rng.random() < .8:
                c["eps"] = models.dec(F(rng.choice([1, 2, 3, 4, 8, 16]), step))
        else:
            c["beliefs"] = [[models.dec(x) for x in models.dist(rng, ns, 8)] for _ in range(rng.randint(1, 25))]
            if rng.random() < .3:
                c["eps"] = "0.000001"
        cases.append(c)
    for t in BADTEXT:
        for a in (dict(alpha1="bad", alpha2="ok"), dict(alpha1="ok", alpha2="bad")):
            cases.append(dict(kind="unreadable", tool="compare_alphas", files=dict(bad=t, ok="0\n1 1\n"),
                              args=dict(states=2, o="res", **a)))
            cases.append(dict(kind="unreadable", tool="belief_alpha_compare", files=dict(bad=t, ok="0\n1 1\n", bel="1 0\n"),
                              args=dict(states=2, o="res", belief="bel", **a)))
    for t in ("0.5 x\n", "0.5\n", "x\n", "1 0\n0\n"):
        for name, a in (("belief_alpha_compare", dict(alpha1="ok", alpha2="ok")), ("map_beliefs", dict(alpha1="ok"))):
            cases.append(dict(kind="unreadable", tool=name, files=dict(ok="0\n1 1\n", bel=t),
                              args=dict(states=2, o="res", belief="bel", **a)))
    for name, a in (("belief_alpha_compare", dict(alpha1="ok", alpha2="ok")), ("map_beliefs", dict(alpha1="ok"))):
        cases.append(dict(kind="unreadable", tool=name, files=dict(ok="0\n1 1\n"), args=dict(states=2, o="res", belief="none", **a)))
    go(ctx, cases)


def possible(m):
    return [[any(F(m["T"][a][s][t]) * F(m["O"][a][t][z]) > 0 for s in range(m["ns"]) for t in range(m["ns"]))
             for z in range(m["no"])] for a in range(m["na"])]


def rand_pg(rng, m, n, links):
    pos = possible(m)
    pg = []
    for i in range(n):
        a = rng.randrange(m["na"])
        pg.append(dict(id=i, a=a, l=[rng.randrange(links) if pos[a][z] else -1 for z in range(m["no"])]))
    return pg


def c15(ctx):
    rng = ctx.rng()
    cases = []
    for i in range(5000 if ctx.thorough() else 700):
        m = models.gen(rng, ns=rng.choice([1, 2, 2, 3, 4]), g=rng.choice([F(0), F(1, 2), F(9, 10), F(95, 100)]))
        if rng.random() < .5:
            for e in m["R"]:
                e["v"] = models.dec(F(e["v"]) * rng.choice([10, 100]))
        start = [models.dec(x) for x in models.dist(rng, m["ns"], 8)]
        if i % 2:
            n = rng.randint(1, 6)
            pg = rand_pg(rng, m, n, n)
            kind = "pgeval"
            c = dict(kind=kind, ns=m["ns"], model=m, start=start, pg=pg)
        else:
            step = rng.choice([1, 2, 4])
            n = rng.randint(1, 6)
            A = alist(rng, m["ns"], n, step)
            B = alist(rng, m["ns"], rng.randint(1, 6), step)
            if rng.random() < .3:
                B = [dict(x) for x in A]
                rng.shuffle(B)
            pg = rand_pg(rng, m, n if rng.random() < .93 else n + rng.choice([-1, 1] if n > 1 else [1]), len(B) + (rng.random() < .2))
            c = dict(kind="relink", ns=m["ns"], in1=A, in2=B, pg=pg, start=start, model=m)
        rows = pg_text(rng, [dict(p, mark=rng.choice("--X")) for p in pg])
        if rng.random() < .3:
            rng.shuffle(rows)
        c["files"] = {"m.pomdp": models.text(m, " ".join(start)), "pg": "\n".join(rows) + "\n"}
        cases.append(c)
    go(ctx, cases)


# ------------------------------------------------------------------ the tracker
def session(ctx, c):
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        put(d, "m.pomdp", models.text(c["model"], " ".join(c["start"])))
        cmd = [ctx.bin("pomdp-tools"), "-tool", "update_beliefs", "-pomdp", "m.pomdp"]
        rec = dict(model=c["model"], start=c["start"], prompt=True,
                   lines=[["v" if ch == "\v" else ch for ch in ln] for ln in c["lines"]])
        p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        text = b""
        status = None
        try:
            if c["talk"]:
                def wait(n):
                    nonlocal text
                    end = time.time() + 5
                    while text.count(b"\n") < n:
                        if not select.select([p.stdout], [], [], max(0, end - time.time()))[0]:
                            return False
                        x = os.read(p.stdout.fileno(), 4096)
                        if not x:
                            return False
                        text += x
                    return True
                ok = wait(1)
                for ln in c["lines"]:
                    if not ok:
                        break
                    n = text.count(b"\n")
                    p.stdin.write((ln + "\n").encode("latin-1"))
                    p.stdin.flush()
                    if ln.strip() == "exit":
                        break
                    ok = wait(n + 1)
                    # an input error is answered by two lines
                    if ok and text.rstrip(b"\n").split(b"\n")[-1] == b"[]":
                        ok = wait(n + 2)
                rec["prompt"] = ok
                out, _ = p.communicate(timeout=20)
                text += out
            else:
                inp = "".join(ln + "\n" for ln in c["lines"])
                if not c["nl"] and c["lines"] and c["lines"][-1]:
                    inp = inp[:-1]
                out, _ = p.communicate(inp.encode("latin-1"), timeout=30)
                text += out
            status = str(p.returncode) if p.returncode >= 0 else "signal %d" % -p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            status = "timeout"
        except BrokenPipeError:
            p.kill()
            p.communicate()
            status = "ended"
        out = []
        for ln in text.decode("latin-1").split("\n")[:-1]:
            if ln == "[]":
                out.append([])
            elif re.match(r"^\[ -?\d+\.\d+(, -?\d+\.\d+)* \]$", ln):
                out.append([vi.trim(x) for x in ln[2:-2].split(", ")])
            else:
                status = "bad line %s" % ln[:60]
        rec.update(out=out, status=status)
        return rec
    finally:
        shutil.rmtree(d, ignore_errors=True)


NOISE = ["", " ", "x", "0", "0 ", "0 0 0", "0 0x", "a b", "0,0", "-1 0", "0 -1", "99 0", "0 99", "99999999999999999999 0",
         "0 4294967296", "4294967296 0", "0 0.5", "1e0 0", "exi", "EXIT", "[0, 0]", "0 0 #", "\t", "--1 0", "0 +", "18446744073709551616 0", "x" * 300, "y" * 900 + " 0",
         "0 0,", "0 1;", "1 1.0", "0 1)", "0 0-", "0 1x1", "0 1 /", "0 " + " " * 1100 + "1", "0 0" + " " * 1100,
         "0 0" + " " * 1100 + "x", " " * 1020 + "0 0 x", " " * 1021 + "0 0", "z" * 1023 + "0 0", "z" * 1024, "z" * 2100]


def spell(rng, a, o):
    pre = rng.choice(["", "", "", " ", "\t", "  "])
    return rng.choice([pre + "%d %d", "%d  %d", "%d\t%d", "%d %d ", "%d %d\r", "%d +%d", "+%d %d", "0%d 0%d", " %d\v%d", "%d\r%d"]) % (a, o)


def walk(rng, m, start, n, noise, impossible):
    b = [F(x) for x in start]
    lines = []
    for _ in range(n):
        if rng.random() < noise:
            lines.append(rng.choice(NOISE))
            continue
        for _ in range(20):
            a, o = rng.randrange(m["na"]), rng.randrange(m["no"])
            j = [sum(b[s] * F(m["T"][a][s][t]) for s in range(m["ns"])) * F(m["O"][a][t][o]) for t in range(m["ns"])]
            p = sum(j)
            if p > F(1, 10 ** 8) or (p == 0 and (impossible or not any(b)) and rng.random() < .3):
                break
        else:
            break
        b = [x / p for x in j] if p else j
        lines.append(spell(rng, a, o))
    return lines


def c16(ctx):
    rng = ctx.rng()
    cases = []
    # every short line over a small alphabet, in a model whose beliefs stay simple
    perm = dict(ns=3, na=2, no=2, g="0.5", cost=False, R=[],
                T=[[["0", "1", "0"], ["0", "0", "1"], ["1", "0", "0"]], [["1", "0", "0"]] * 3],
                O=[[["0.5", "0.5"]] * 3, [["1", "0"]] * 3])
    perm["T"][1] = [["0", "1", "0"], ["1", "0", "0"], ["0", "0", "1"]]
    perm["O"][1] = [["0.25", "0.75"]] * 3
    alpha = "01- x" + ("2+\t" if ctx.thorough() else "")
    lines = ["".join(t) for n in range(0, 6) for t in itertools.product(alpha, repeat=n)]
    rng.shuffle(lines)
    for k in range(0, len(lines), 500):
        cases.append(dict(model=perm, start=["0.5", "0.25", "0.25"], lines=lines[k:k + 500], talk=False, nl=True))
    for i in range(3000 if ctx.thorough() else 300):
        m = models.gen(rng, ns=rng.choice([1, 2, 2, 3, 4]))
        start = [models.dec(x) for x in models.dist(rng, m["ns"], rng.choice([4, 8, 10]))]
        talk = i % 15 == 0
        ls = walk(rng, m, start, rng.randint(0, 25), rng.choice([0, .1, .5]), rng.random() < .3)
        if rng.random() < .3:
            ls.append(rng.choice(["exit", " exit", "exit "]))
            if not talk and rng.random() < .5:
                ls.append("0 0")
        if talk:
            ls = [x for x in ls if "\r" not in x]
        cases.append(dict(model=m, start=start, lines=ls, talk=talk, nl=rng.random() < .7))
    ctx.bin("pomdp-tools")
    ctx.java()
    fw.conform(ctx, "TraceTracker", cases, lambda c: session(ctx, c),
               describe=lambda c, r: "lines %s" % str(c["lines"][:30])[:300], chunk=1000)


CHECKS = {"C13": c13, "C14": c14, "C15": c15, "C16": c16}

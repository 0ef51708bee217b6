"""C23: linear programs are solved, and witness points found, exactly when there are any."""
import json
import os
import random
import subprocess
from fractions import Fraction as F

import exactlp
import fw

TOL = "1e-7"


def text(x):
    return "inf" if x is None else str(float(x)) if F(x).denominator & (F(x).denominator - 1) == 0 else repr(float(x))


def rat(x):
    return "inf" if x is None else "%d/%d" % (F(x).numerator, F(x).denominator) if F(x).denominator != 1 else str(F(x))


def lp(rng):
    """A linear program: general, or of the kinds the program itself builds."""
    n, m = rng.randint(1, 6), rng.randint(1, 8)
    kind = rng.random()
    big = rng.choice([3, 9, 40])

    def co(p=.6):
        return F(rng.randint(-big, big), rng.choice([1, 1, 2, 4])) if rng.random() < p else F(0)
    lo, up = [F(0)] * n, [None] * n
    c = [co() for _ in range(n)]
    if kind < .5:
        rows = [("LLLGGE"[rng.randrange(6)] if rng.random() < .8 else "L", co(.8), [co() for _ in range(n)]) for _ in range(m)]
        for j in range(n):
            if rng.random() < .4:
                up[j] = F(rng.randint(0, 9))
            if rng.random() < .15:
                lo[j] = F(rng.randint(-4, 2))
                if up[j] is not None:
                    up[j] = max(up[j], lo[j])
    elif kind < .8:             # a point of a simplex within half spaces (two pass)
        rows = [("E", F(1), [F(1)] * n)] + [("L", F(0), [co(.9) for _ in range(n)]) for _ in range(m)]
        up = [F(1)] * n
    else:                       # feasible for sure: around a point
        x = [F(rng.randint(0, 3)) for _ in range(n)]
        rows = []
        for _ in range(m):
            a = [co() for _ in range(n)]
            v = sum(p * q for p, q in zip(a, x))
            s = rng.choice("LLGE")
            rows.append((s, v + (0 if s == "E" or rng.random() < .4 else (1 if s == "L" else -1) * rng.randint(1, 5)), a))
    for s, r, a in rows:
        if not any(a):
            a[rng.randrange(n)] = F(rng.randint(1, big))
    return dict(kind="lp", max=rng.random() < .6, c=c, rows=rows, lo=lo, up=up)


def region(rng):
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
    k = rng.choice([0, 1, 1, 2, 3, 5, 8, 14])
    big = rng.choice([1, 2, 10, 50])
    den = rng.choice([1, 1, 2, 4])

    def vec():
        return [F(rng.randint(-big, big), den) for _ in range(n)]
    ls = [vec() for _ in range(k)]
    v = vec()
    w = rng.random()
    if k and w < .15:
        v = list(rng.choice(ls))
    elif k > 1 and w < .35:     # a mixture, or slightly above or below
        a, b = rng.choice(ls), rng.choice(ls)
        d = rng.choice([0, 0, F(1, 1024), F(-1, 1024), F(1, 8), F(-1, 8), F(1, 2 ** 15), F(-1, 2 ** 15)])
        v = [(x + y) / 2 + d for x, y in zip(a, b)]
    elif k and w < .5:
        v = [x + rng.choice([0, 0, 0, F(1, 4), F(-1, 4)]) for x in rng.choice(ls)]
    elif k and w < .6:          # all of it within a little of one vector
        t = F(1, rng.choice([2 ** 7, 2 ** 10]))
        v, ls = [c + x * t for c, x in zip(ls[0], v)], [[c + x * t for c, x in zip(ls[0], y)] for y in ls]
    return dict(kind="region", near=bool(k) and .5 <= w < .6, v=v, list=ls, eps=rng.choice(["1e-9", "1e-9", "1e-9", "0.001", "0.1", "0.5"]))


def describe(i):
    if i["kind"] == "lp":
        out = ["lp %d %d %d" % (1 if i["max"] else -1, len(i["rows"]), len(i["c"])), " ".join(map(text, i["c"]))]
        out += ["%s %s %s" % (s, text(r), " ".join(map(text, a))) for s, r, a in i["rows"]]
        return "\n".join(out + [" ".join(map(text, i["lo"])), " ".join(map(text, i["up"]))]) + "\n"
    return "region %d %d\n%s\n%s%s\n" % (len(i["v"]), len(i["list"]), " ".join(map(text, i["v"])),
                                         "".join(" ".join(map(text, x)) + "\n" for x in i["list"]), i["eps"])


def certificate(i):
    if i["kind"] == "lp":
        c = i["c"] if i["max"] else [-x for x in i["c"]]
        kind, x, y = exactlp.solve(c, i["rows"], i["lo"], i["up"])
        return dict(kind=kind, x=[rat(q) for q in x or []], y=[rat(q) for q in y])
    n, ls = len(i["v"]), i["list"]
    if not ls:
        return dict(kind="", x=[], y=[])
    rows = [("E", F(1), [F(1)] * n + [F(0)])]
    rows += [("L", F(0), [x - y for x, y in zip(w, i["v"])] + [F(1)]) for w in ls]
    kind, x, y = exactlp.solve([F(0)] * n + [F(1)], rows, [F(0)] * n + [None], [None] * (n + 1))
    return dict(kind=kind, x=[rat(q) for q in x[:n]], y=[rat(q) for q in y[1:]])


def record(i, cert, ans, status):
    if i["kind"] == "lp":
        p = dict(max=i["max"], c=[rat(x) for x in i["c"]], lo=[rat(x) for x in i["lo"]], up=[rat(x) for x in i["up"]],
                 rows=[dict(s=s, r=rat(r), a=[rat(x) for x in a]) for s, r, a in i["rows"]])
        sc = max([1] + [abs(float(F(x))) for x in cert["x"]] if cert["kind"] == "optimal" else [1])
        return dict(kind="lp", p=p, cert=cert, ans=ans, status=status, tol="%.3e" % (float(TOL) * sc * 40))
    return dict(kind="region", v=[rat(x) for x in i["v"]], list=[[rat(x) for x in w] for w in i["list"]], eps=i["eps"],
                cert=cert, ans=ans, status=status,
                # reduced costs below 1e-6 count as none
                tol="%.3e" % (2e-6 if i.get("near") else float(TOL) * max(1, max(map(abs, i["v"])))))


NONE = dict(found=False, value="0", x=[])


def ask(ctx, h, part):
    """Answers of the program to the questions of a part, in order."""
    fn = os.path.join(ctx.scratch, "lp%d" % random.randrange(10 ** 12))
    with open(fn, "w") as f:
        f.write("".join(map(describe, part)))
    try:
        p = subprocess.run([h, fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=120, cwd=ctx.scratch)
        out, why = p.stdout.decode("latin-1").splitlines(), "the program ended (%d)" % p.returncode
    except subprocess.TimeoutExpired as x:
        out, why = (x.stdout or b"").decode("latin-1").splitlines(), "the program did not end"
    os.unlink(fn)
    out = [json.loads(x) for x in out if x.startswith('{"found"') and x.endswith("}")]
    return [(a, "ok") for a in out] + ([(NONE, why)] if len(out) < len(part) else [])


def laws(ctx):
    """That the certificates the specification accepts decide, on small programs."""
    for rows, reach, senses, mx in ((1, 4, '{"L", "G", "E"}', "{TRUE, FALSE}"), (2, 2, '{"L"}', "{TRUE}"))[:2 if ctx.thorough() else 1]:
        r = ctx.tlc("LPLaws", "SPECIFICATION Spec\nINVARIANT Laws\nCHECK_DEADLOCK FALSE\nCONSTANTS\nRows = %d\nReach = %d\n"
                    "Senses = %s\nMax = %s\n" % (rows, reach, senses, mx))
        if r.rc != 0:
            raise fw.MachineryError("LPLaws: %s" % r.error)


def c23(ctx):
    h = ctx.build.harness("lps")
    laws(ctx)
    rng = ctx.rng()
    n = 60 if ctx.thorough() else 4
    qs = [[(lp if rng.random() < .5 else region)(rng) for _ in range(100)] for _ in range(8 * n)]

    def go(part):
        return [record(i, certificate(i), a, st) for i, (a, st) in zip(part, ask(ctx, h, part))]
    both = [(i, r) for p, rs in zip(qs, fw.pmap(go, qs)) for i, r in zip(p, rs)]
    for k in range(0, len(both), 8000):
        bad = fw.validate(ctx, "TraceLP", [r for _, r in both[k:k + 8000]])
        for (i, r), b in zip(both[k:k + 8000], bad):
            if not b:
                continue
            if any(x["bad"] == "certificate" for x in b):
                raise fw.MachineryError("a certificate is wrong: %s" % b[0]["at"][:400])
            b2 = fw.validate(ctx, "TraceLP", go([i]), count=False)
            same = [x for x in b2[0] if x["bad"] in {y["bad"] for y in b}]
            if same and ctx.violation("%s %s" % (same[0]["bad"], same[0]["at"][:500]), {"question": describe(i), "record": r}):
                return
    ctx.traces += len(both)
    for _, r in both[:3]:
        ctx.sample(r)
    ctx.cov["outcomes"] = {k: sum(1 for _, r in both if r["cert"]["kind"] == k and r["kind"] == "lp")
                           for k in ("optimal", "infeasible", "unbounded")}
    ctx.cov["witness_searches"] = {str(f): sum(1 for _, r in both if r["kind"] == "region" and r["ans"]["found"] == f)
                                   for f in (True, False)}
    return "model_checking"


CHECKS = {"C23": c23}

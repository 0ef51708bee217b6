"""Runs of pomdp-solve recorded as traces for spec/TraceVI.tla."""
import os
import re
import shutil
import tempfile

import fw
import models

NUM = re.compile(r"^[-+]?(\d+(\.\d*)?|\.\d+)$")


def trim(s):
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return "0" if s in ("-0", "") else s


def read_alpha(path, ns=None):
    """The vectors of an alpha file, or None when it is not one.
    ([{a: action number, v: [decimal strings]}])"""
    try:
        toks = open(path, encoding="latin-1").read().split("\n")
    except OSError:
        return None
    out = []
    lines = [t.strip() for t in toks if t.strip()]
    if len(lines) % 2:
        return None
    for i in range(0, len(lines), 2):
        a, v = lines[i], lines[i + 1].split()
        if not re.match(r"^-?\d+$", a) or not v or not all(NUM.match(x) for x in v):
            return None
        if ns is not None and len(v) != ns:
            return None
        out.append(dict(a=int(a), v=[trim(x) for x in v]))
    return out


def read_pg(path):
    """[{id, a, l: [links, -1 for "-"]}] or None"""
    try:
        lines = [t.split() for t in open(path, encoding="latin-1").read().split("\n") if t.strip()]
    except OSError:
        return None
    out = []
    for t in lines:
        if len(t) < 2 or not all(re.match(r"^(-|-?\d+)$", x) for x in t):
            return None
        if t[0] == "-" or t[1] == "-" or len(max(t, key=len)) > 9:
            return None
        out.append(dict(id=int(t[0]), a=int(t[1]), l=[-1 if x == "-" else (-2 if int(x) < 0 else int(x))
                                                      for x in t[2:]]))
    return out


STAT = re.compile(r"Epoch: (\d+)\.\.\.(.*?)(\d+) vectors in .*? secs\. \(.*? total\) \(err=([^)]*)\)", re.S)


def opts_of(o):
    r = []
    for k, v in o.items():
        r += ["-" + k] if v is True else ["-" + k, str(v)]
    return r


def write_alpha(path, vecs):
    with open(path, "w") as f:
        for x in vecs:
            f.write("%d\n%s\n\n" % (x["a"], " ".join(x["v"])))


class Bad(Exception):
    pass


def bare(ctx, rec, model, opts, **kw):
    """The same run without the options that only save more files."""
    b = dict(ran=False, ok=True, al=[], pg=[], lines=[])
    if rec["status"] == "0":
        r = solve(ctx, model, opts, saveall=False, **kw)
        b["ran"] = True
        b["ok"] = r["status"] == "0" and r["fin"]["al"] is not None and r["fin"]["pg"] is not None
        if b["ok"]:
            b.update(al=r["fin"]["al"], pg=r["fin"]["pg"],
                     lines=["%d %d %s" % (x["n"], x["k"], x["err"]) for x in r["stats"]])
    return b


def solve(ctx, model, opts, term=None, timeout=25, start=None, saveall=True, pen=False, text=None, files=(),
          env=None, keep=None, way=None):
    """One run; returns dict(status, out, ep, fin, pen, left).  way: how the
    options get there (discount: the file's, to be overridden; cfg: options
    that go into a configuration file; o: another name for the results)."""
    way = way or {}
    o = way.get("o", "out")
    d = tempfile.mkdtemp(dir=ctx.scratch)
    try:
        with open(os.path.join(d, "m.pomdp"), "w") as f:
            f.write(text if text is not None else models.text(dict(model, g=way.get("discount", model["g"])), start))
        for n, t in files:
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        os.makedirs(os.path.dirname(os.path.join(d, o)), exist_ok=True)
        cmd = [ctx.bin("pomdp-solve"), "-pomdp", "m.pomdp", "-o", o]
        if saveall:
            cmd += ["-save_all"]
        if pen:
            cmd += ["-save_penultimate"]
        if term:
            write_alpha(os.path.join(d, "init.alpha"), term)
            cmd += ["-terminal_values", "init.alpha"]
        if "discount" in way:
            opts = dict(opts, discount=model["g"])
        inside = [k for k in opts if k in way.get("cfg", ()) and opts[k] is not True]
        if inside:
            with open(os.path.join(d, "conf"), "w") as f:
                f.write("".join("%s = %s\n" % (k, opts[k]) for k in inside))
            cmd += ["-f", "conf"]
        cmd += opts_of({k: v for k, v in opts.items() if k not in inside})
        r = fw.run(cmd, d, timeout=timeout, env=env)
        # lp_solve's own report that its results are not to be relied on
        res = dict(shaky="with numerical instability" in r.out, status=r.status, out=r.out, ep=[], stats=[], cmd=" ".join(cmd[1:]))
        for m in STAT.finditer(r.out):
            res["stats"].append(dict(n=int(m.group(1)), k=int(m.group(3)), err=m.group(4)))
        ns = model["ns"] if model else None
        n = 1
        while os.path.exists(os.path.join(d, o + ".alpha%d" % n)):
            res["ep"].append(dict(al=read_alpha(os.path.join(d, o + ".alpha%d" % n), ns),
                                  pg=read_pg(os.path.join(d, o + ".pg%d" % n))))
            n += 1
        p = os.path.join(d, o + ".alpha")
        res["fin"] = dict(al=read_alpha(p, ns) if os.path.exists(p) else None,
                          pg=read_pg(os.path.join(d, o + ".pg")) if os.path.exists(p) else None)
        res["finx"] = os.path.exists(p)
        p = os.path.join(d, o + ".prev.alpha")
        res["pen"] = read_alpha(p, ns) if os.path.exists(p) else None
        res["penx"] = os.path.exists(p)
        res["left"] = [f for f in os.listdir(d) if f.startswith("##")]
        if keep:
            keep(d, res)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------ hint beliefs
def fmt(b):
    """A belief near b with exact decimal components that sum to one."""
    q = [max(0, int(round(x * 10 ** 12))) for x in b]
    k = max(range(len(q)), key=lambda i: q[i])
    q[k] += 10 ** 12 - sum(q)
    return ["%d.%012d" % (x // 10 ** 12, x % 10 ** 12) for x in q]


def lp_margin(v, U):
    """belief where v rises most above the surface U, the margin, dual weights"""
    import numpy as np
    from scipy.optimize import linprog
    n = len(v)
    if not len(U):
        return [1.0 / n] * n, 1e9, []
    c = np.zeros(n + 1)
    c[-1] = -1
    A = np.hstack([np.asarray(U) - np.asarray(v), np.ones((len(U), 1))])
    s = max(1.0, float(np.abs(A).max()))
    A[:, :n] /= s
    r = linprog(c, A_ub=A, b_ub=np.zeros(len(U)), A_eq=[[1.0] * n + [0.0]], b_eq=[1.0],
                bounds=[(0, None)] * n + [(None, None)], method="highs")
    if r.status != 0:
        return None
    lam = [max(0.0, -float(x)) for x in r.ineqlin.marginals]
    t = sum(lam) or 1.0
    return list(r.x[:n]), -r.fun * s, [x / t for x in lam]


_BEL = {}


def beliefs(n):
    if n not in _BEL:
        import numpy as np
        r = np.random.RandomState(5)
        b = np.vstack([np.eye(n), np.ones((1, n)) / n, r.dirichlet([1.0] * n, 150), r.dirichlet([.3] * n, 150)])
        _BEL[n] = b
    return _BEL[n]


def pars_hints(vecs):
    """Per vector the belief where it stands out, or weights that show it does not."""
    import numpy as np
    V = [[float(x) for x in e["v"]] for e in vecs]
    B, Lm = [], []
    A = np.array(V)
    n = A.shape[1]
    bel = beliefs(n)
    if n == 2:      # the middles between the crossings
        d = A[:, None, :] - A[None, :, :]
        with np.errstate(all="ignore"):
            x = (d[:, :, 1] / (d[:, :, 1] - d[:, :, 0])).ravel()
        x = np.unique(np.concatenate([[0, 1], x[np.isfinite(x) & (x > 0) & (x < 1)]]))
        if len(x) < 4000:
            mid = (x[1:] + x[:-1]) / 2
            x = np.concatenate([x, mid])
        bel = np.stack([x, 1 - x], 1)
    val = bel @ A.T
    order = np.sort(val, axis=1)
    top = val.argmax(1)
    for i, v in enumerate(V):
        U = V[:i] + V[i + 1:]
        w = np.where(top == i)[0]
        if len(w) and len(U):
            k = w[np.argmax(order[w, -1] - order[w, -2])]
            if order[k, -1] - order[k, -2] > 1e-7:
                B.append(fmt(bel[k]))
                Lm.append([])
                continue
        r = lp_margin(v, U)
        if r is None:
            B.append([])
            Lm.append([])
            continue
        B.append(fmt(r[0]))
        Lm.append(fmt(r[2]) if r[1] < 1e-7 and r[2] else [])
    return B, Lm


def complete_hints(model, prev, cur, rng, limit=400):
    """Beliefs where a backed-up plan may rise above cur (neighbours of the
    vectors of cur, and every action's plans at the corners and at random)."""
    import numpy as np
    T, O, q = models.tables(model)
    g = float(model["g"])
    ns, na, no = model["ns"], model["na"], model["no"]
    P = np.array([[float(x) for x in e["v"]] for e in prev])
    C = np.array([[float(x) for x in e["v"]] for e in cur])
    # G[a,z,i,s]
    G = g * np.einsum("ast,atz,it->azis", T, O, P)

    def plan(a, b):
        s = [int(np.argmax(G[a, z] @ b)) for z in range(no)]
        return s, q[a] + sum(G[a, z, s[z]] for z in range(no))
    hints = []
    beliefs = [np.eye(ns)[i] for i in range(ns)] + [np.ones(ns) / ns]
    for _ in range(6):
        x = np.array([rng.expovariate(1) for _ in range(ns)])
        beliefs.append(x / x.sum())
    seen = set()
    work = []
    for b in beliefs:
        for a in range(na):
            s, v = plan(a, b)
            if (a, tuple(s)) not in seen:
                seen.add((a, tuple(s)))
                work.append((a, s, v))
    for w in C:     # the plans of the current vectors, recovered where they are best
        r = lp_margin(w, [u for u in C if u is not w])
        if r is None:
            continue
        b = np.array(r[0])
        best = max(((plan(a, b)[1] @ b), a) for a in range(na))[1]
        s, v = plan(best, b)
        if (best, tuple(s)) not in seen:
            seen.add((best, tuple(s)))
            work.append((best, s, v))
    n = 0
    for a, s, v in work:
        cand = [(v, None)]
        for z in range(no):
            for i in range(len(P)):
                if i != s[z]:
                    cand.append((v - G[a, z, s[z]] + G[a, z, i], i))
        for u, _ in cand:
            n += 1
            if n > limit:
                break
            r = lp_margin(u, C)
            if r and r[1] > 1e-8:
                hints.append((r[1], fmt(r[0])))
    hints.sort(key=lambda h: -h[0])
    return [h for _, h in hints[:6]] + [fmt(b) for b in beliefs]


def scale_of(*lists):
    m = 1.0
    for l in lists:
        for e in l:
            for x in e["v"]:
                m = max(m, abs(float(x)))
    return m


def sci(x):
    return "%.3e" % x


def record(ctx, case):
    """Runs a case and makes the trace record of TraceVI."""
    m = case["model"]
    o = case["opts"]
    rng = ctx.rng("way%s" % case.get("id"))
    way = {}
    if rng.random() < .2:
        way["discount"] = rng.choice(["0", "0.5", "0.9", "1", "0.25"])
    if rng.random() < .25:
        way["cfg"] = {k for k in o if rng.random() < .5} | ({"discount"} if rng.random() < .5 else set())
    if rng.random() < .2:
        way["o"] = rng.choice(["a/b.c/out", "./out.alpha", "x.pg", "1", "out-.prev"])
    r = solve(ctx, m, o, term=case.get("term"), pen=case.get("pen", False), timeout=case.get("timeout", 12),
              saveall=not case.get("nosave"), way=way)
    if r["status"] == "timeout":
        # value functions can grow doubly exponentially; only a run that is
        # stuck at something small counts as one that does not end
        k = len(r["ep"][-1]["al"] or []) if r["ep"] else (len(case["term"]) if case.get("term") else 1)
        if m["na"] * k ** m["no"] > 400:
            r["status"] = "cut"
            r["finx"] = r["penx"] = False
            if r["ep"] and len(r["stats"]) < len(r["ep"]):
                r["ep"].pop()
    rng = ctx.rng("hint%s" % case.get("id"))
    zero = [dict(a=0, v=["0"] * m["ns"])]
    prev = case.get("term") or zero
    rec = dict(id=case.get("id", ""), status=r["status"], model=m, init=prev, ep=[], cmd=r["cmd"],
               kind=case.get("kind", "exact"),
               crit=o.get("stop_criteria", "weak"), delta=str(o.get("stop_delta", "1e-9")),
               horizon=int(o.get("horizon", 0)) if int(o.get("horizon", 0)) > 0 else 0,
               hasinit=bool(case.get("term")), nstat=len(r["stats"]), pen=[], penx=r["penx"], penw=case.get("pen", False),
               minr0=min_reward(m) >= 0, left=len(r["left"]), garbled=False,
               nsaved=len(r["ep"]), finx=r["finx"],
               sol="Solution found" in r["out"],
               approx=dict(method=o.get("method", "incprune"), ip=o.get("inc_prune", "normal"), q=o.get("q_purge", "normal_prune"),
                           enum=o.get("enum_purge", "normal_prune"), proj=o.get("proj_purge", "none"),
                           peps=str(o.get("prune_epsilon", "1e-9")), eps=str(o.get("epsilon", "1e-9"))))
    rec["lines"] = ["%d %d %s" % (x["n"], x["k"], x["err"]) for x in r["stats"]]
    rec["bare"] = bare(ctx, rec if case.get("bare") else dict(status="no"), m, o, term=case.get("term"),
                       timeout=case.get("timeout", 12), way=way)
    big = [i for i, e in enumerate(r["ep"]) if e["al"] and len(e["al"]) > case.get("most", 150)]
    if big and r["status"] in ("0", "cut"):     # only judge the epochs before
        r["status"] = "cut"
        r["ep"] = r["ep"][:big[0]]
        r["finx"] = r["penx"] = False
        rec["nsaved"], rec["finx"], rec["penx"], rec["status"] = len(r["ep"]), False, False, "cut"
    if any(e["al"] is None or e["pg"] is None for e in r["ep"]) or (r["finx"] and r["fin"]["al"] is None) \
            or (r["finx"] and r["fin"]["pg"] is None) or (r["penx"] and r["pen"] is None):
        rec["garbled"] = True
        rec["ep"], rec["fin"], rec["pen"] = [], dict(al=[], pg=[]), []
        return rec
    cap = case.get("cap", 40)
    for i, e in enumerate(r["ep"]):
        st = r["stats"][i] if i < len(r["stats"]) else dict(n=-1, k=-1, err="none")
        sc = scale_of(prev, e["al"])
        work = len(e["al"]) <= cap and len(prev) <= cap and i < case.get("deep", 8)
        if m["ns"] >= 3 and (len(e["al"]) > 24 or len(prev) > 24):
            work = False
        work = work and not r["shaky"]
        full = work and case.get("value", True)
        pb, pl = pars_hints(e["al"]) if work and case.get("pars", True) else ([], [])
        hb = complete_hints(m, prev, e["al"], rng) if full and (m["ns"] >= 4 or case.get("hints")) else []
        rec["ep"].append(dict(n=st["n"], k=st["k"], err=st["err"] if re.match(r"^(inf|[-+.0-9e]+)$", st["err"])
                              else "none", al=e["al"], pg=e["pg"], tol=sci(2e-6 * sc), eps=sci(1e-12 * sc),
                              acc=sci(1e-12 * sc),
                              full=full, pars=bool(pb), hb=hb, pb=pb, pl=pl))
        prev = e["al"]
    rec["fin"] = dict(al=r["fin"]["al"] or [], pg=r["fin"]["pg"] or [])
    rec["pen"] = r["pen"] or []
    return rec


def min_reward(m):
    T, O, q = models.tables(m)
    return float(min(q.min(), 0.0)) if not m["cost"] else float(min((-q).min(), 0.0))

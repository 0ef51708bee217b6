"""POMDP models: generators, and writing them in the program's input format.

A model is the JSON record of spec/Pomdp.tla (numbers as decimal strings)."""
from fractions import Fraction as F


def dec(x):
    """A fraction with a finite decimal expansion, as a decimal string."""
    x = F(x)
    n, d = x.numerator, x.denominator
    k = 0
    while (10 ** k) % d:
        k += 1
        if k > 30:
            raise ValueError("no finite decimal: %s" % x)
    v = abs(n) * 10 ** k // d
    s = str(v).rjust(k + 1, "0")
    s = s if k == 0 else s[:-k] + "." + s[-k:]
    return ("-" if n < 0 else "") + s


def dist(rng, n, grid, kind=None, rare=True):
    """A probability vector over n outcomes with entries in (1/grid) Z."""
    kind = kind or rng.choice(["dense", "dense", "sparse", "point"])
    if kind == "point" or n == 1:
        k = rng.randrange(n)
        return [F(1) if i == k else F(0) for i in range(n)]
    if kind == "uniform" and grid % n == 0:
        return [F(1, n)] * n
    sup = list(range(n))
    if kind == "sparse" and n > 2:
        rng.shuffle(sup)
        sup = sorted(sup[:rng.randint(2, n - 1)])
    if len(sup) > grid:
        sup = sup[:grid]
    if rng.random() < .06 and rare and grid & (grid - 1):    # all but certain
        tiny = rng.choice([F(1, 1000), F(1, 10 ** 4), F(1, 50)])
        big = rng.choice(sup)
        return [F(0) if i not in sup else 1 - (len(sup) - 1) * tiny if i == big else tiny for i in range(n)]
    cuts = sorted(rng.sample(range(1, grid), len(sup) - 1))
    parts = [b - a for a, b in zip([0] + cuts, cuts + [grid])]
    v = [F(0)] * n
    for i, p in zip(sup, parts):
        v[i] = F(p, grid)
    return v


def gen(rng, ns=None, na=None, no=None, g=None, cost=None, grid=None, rkind=None):
    ns = ns or rng.choice([2, 2, 2, 3, 3])
    na = na or rng.choice([1, 2, 2, 3, 3, 4])
    no = no or rng.choice([1, 2, 2, 2, 3])
    grid = grid or rng.choice([4, 8, 10, 20, 100])
    if g is None:
        g = rng.choice([F(0), F(1, 2), F(3, 4), F(9, 10), F(95, 100), F(1)])
    cost = rng.random() < .2 if cost is None else cost
    rkind = rkind or rng.choice(["sa", "sa", "sa", "full", "mix"])
    # the program keeps no expected reward below 1e-10: fine rewards go with no rare outcomes
    unit = rng.choice([F(1)] * 7 + [F(100), F(1, 100), F(1, 10 ** 4), F(1, 10 ** 4), F(1, 10 ** (6 if rkind == "sa" else 4))])
    T, O = [], []
    near = unit < F(1, 100)     # vectors may come closer to each other than the linear programs resolve
    for a in range(na):
        k = rng.choice(["identity", "mixed", "mixed", "mixed", "reset"])
        if k == "identity":
            T.append([[F(int(s == t)) for t in range(ns)] for s in range(ns)])
        elif k == "reset":
            row = dist(rng, ns, grid)
            T.append([list(row) for _ in range(ns)])
        else:
            T.append([dist(rng, ns, grid, rare=unit >= 1) for _ in range(ns)])
        k = rng.choice(["blind", "mixed", "mixed", "mixed", "mixed"])
        if k == "blind":
            row = dist(rng, no, grid)
            O.append([list(row) for _ in range(ns)])
        else:
            O.append([dist(rng, no, grid, "dense" if rng.random() < .6 and grid >= no else None, unit >= 1)
                      for _ in range(ns)])
        if no > 1 and rng.random() < .14:       # an observation that is impossible after this action, or nearly
            z, tiny = rng.randrange(no), F(0) if rng.random() < .45 or unit < 1 else F(1, 10 ** 5) if grid & (grid - 1) else F(1, 2 ** 16)
            near = near or tiny > 0
            for row in O[-1]:
                p, old = rng.choice([F(0), tiny, tiny]), row[z]
                row[z] = F(-1)
                row[row.index(max(row))] += old - p
                row[z] = p
    lo, hi = rng.choice([(0, 10), (-10, 10), (-10, 0), (-3, 3), (0, 1)])
    step = rng.choice([1, 2, 4])

    def val():
        if unit != 1 and rng.random() < .2:
            return F(rng.randint(lo, hi))
        return F(rng.randint(lo * step, hi * step), step) * unit
    R = []
    if rkind == "sa":
        for a in range(na):
            for s in range(ns):
                R.append(dict(a=a + 1, s=s + 1, t=0, z=0, v=dec(val())))
    elif rkind == "full":
        for a in range(na):
            for s in range(ns):
                for t in range(ns):
                    for z in range(no):
                        if rng.random() < .5:
                            R.append(dict(a=a + 1, s=s + 1, t=t + 1, z=z + 1, v=dec(val())))
    else:
        for _ in range(rng.randint(1, 2 + 2 * ns * na)):
            R.append(dict(a=rng.randint(0, na), s=rng.randint(0, ns), t=rng.choice([0, rng.randint(0, ns)]),
                          z=rng.choice([0, rng.randint(0, no)]), v=dec(val())))
    return dict(ns=ns, na=na, no=no, g=dec(g), cost=cost,
                T=[[[dec(x) for x in r] for r in m] for m in T],
                O=[[[dec(x) for x in r] for r in m] for m in O], R=R, near=near)


def text(m, start=None):
    """The plainest spelling of a model (the parser's check covers the others)."""
    L = ["discount: " + m["g"], "values: " + ("cost" if m["cost"] else "reward"),
         "states: %d" % m["ns"], "actions: %d" % m["na"], "observations: %d" % m["no"]]
    if start:
        L.append("start: " + start)
    for a in range(m["na"]):
        L.append("T: %d" % a)
        L += [" ".join(r) for r in m["T"][a]]
    for a in range(m["na"]):
        L.append("O: %d" % a)
        L += [" ".join(r) for r in m["O"][a]]

    def w(x):
        return "*" if x == 0 else str(x - 1)
    for e in m["R"]:
        L.append("R: %s : %s : %s : %s %s" % (w(e["a"]), w(e["s"]), w(e["t"]), w(e["z"]), e["v"]))
    return "\n".join(L) + "\n"


# ------------------------------------------------------------------ semantics
# (floating point, only used to choose hint beliefs, never to judge)
def tables(m):
    import numpy as np
    ns, na, no = m["ns"], m["na"], m["no"]
    T = np.array([[[float(x) for x in r] for r in q] for q in m["T"]]).reshape(na, ns, ns)
    O = np.array([[[float(x) for x in r] for r in q] for q in m["O"]]).reshape(na, ns, no)
    R = np.zeros((na, ns, ns, no))
    for e in m["R"]:
        sl = tuple(slice(None) if e[k] == 0 else e[k] - 1 for k in ("a", "s", "t", "z"))
        R[sl] = float(e["v"])
    q = np.einsum("ast,atz,astz->as", T, O, R)
    if m["cost"]:
        q = -q
    return T, O, q

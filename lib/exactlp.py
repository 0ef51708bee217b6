"""Linear programs solved with rationals: the outcome with a certificate that
spec/LP.tla verifies (so that nothing here needs to be trusted)."""
from fractions import Fraction as F


def solve(c, rows, lo, up):
    """max c.x, rows (sense, rhs, coefficients), lo <= x <= up (None: no bound).
    ("optimal", x, y) | ("infeasible", None, y) | ("unbounded", x, ray)"""
    n = len(c)
    cols = []                   # (variable, sign)
    for j in range(n):
        cols.append((j, 1))
        if lo[j] is None:
            cols.append((j, -1))
    A, b, s = [], [], []
    for sense, r, a in list(rows) + [("L", up[j], [F(int(k == j)) for k in range(n)]) for j in range(n)
                                     if up[j] is not None]:
        r = F(r) - sum(F(a[j]) * lo[j] for j in range(n) if lo[j] is not None)
        A.append([F(a[j]) * g for j, g in cols])
        b.append(r)
        s.append(sense)
    m = len(A)
    flip = []
    ns = sum(x != "E" for x in s)
    T, k = [], 0
    for i in range(m):
        row = A[i] + [F(0)] * ns
        if s[i] != "E":
            row[len(cols) + k] = F(1 if s[i] == "L" else -1)
            k += 1
        f = -1 if b[i] < 0 else 1
        flip.append(f)
        T.append([x * f for x in row] + [F(int(q == i)) for q in range(m)] + [b[i] * f])
    real = len(cols) + ns
    basis = [real + i for i in range(m)]

    def run(cost, allowed):
        while True:
            enter = None
            for j in range(allowed):
                if j not in basis and cost[j] - sum(cost[basis[i]] * T[i][j] for i in range(m) if cost[basis[i]]) > 0:
                    enter = j
                    break
            if enter is None:
                return None
            best = None
            for i in range(m):
                if T[i][enter] > 0:
                    q = (T[i][-1] / T[i][enter], basis[i])
                    if best is None or q < best[0]:
                        best = (q, i)
            if best is None:
                return enter
            pivot(best[1], enter)

    def pivot(i, j):
        p = T[i][j]
        T[i] = [x / p for x in T[i]]
        for q in range(m):
            if q != i and T[q][j]:
                f = T[q][j]
                T[q] = [x - f * y for x, y in zip(T[q], T[i])]
        basis[i] = j

    def duals(cost):
        y = [sum(cost[basis[i]] * T[i][real + q] for i in range(m) if cost[basis[i]]) for q in range(m)]
        return [y[q] * flip[q] for q in range(len(rows))]

    def point():
        z = [F(0)] * (real + m)
        for i in range(m):
            z[basis[i]] = T[i][-1]
        x = [lo[j] if lo[j] is not None else F(0) for j in range(n)]
        for q, (j, g) in enumerate(cols):
            x[j] += g * z[q]
        return x
    c1 = [F(0)] * real + [F(-1)] * m
    run(c1, real)
    if sum(T[i][-1] for i in range(m) if basis[i] >= real) > 0:
        return "infeasible", None, duals(c1)
    for i in range(m):
        if basis[i] >= real:
            for j in range(real):
                if T[i][j]:
                    pivot(i, j)
                    break
    c2 = [F(c[j]) * g for j, g in cols] + [F(0)] * (ns + m)
    e = run(c2, real)
    if e is None:
        return "optimal", point(), duals(c2)
    d = [F(0)] * real
    d[e] = F(1)
    for i in range(m):
        if basis[i] < real:
            d[basis[i]] -= T[i][e]
    ray = [F(0)] * n
    for q, (j, g) in enumerate(cols):
        ray[j] += g * d[q]
    return "unbounded", point(), ray

"""Files in the POMDP format: as token sequences, and as text."""
import json
import os
from fractions import Fraction as F

import models
from models import dec

KEY = {"discount", "values", "states", "actions", "observations", "T", "O", "R", "uniform", "identity", "reward",
       "cost", "start", "include", "exclude", "reset"}


def num(rng, x, signed=False):
    """Tokens of a number in some spelling."""
    x = F(x)
    pre = []
    if x < 0:
        pre = [["-", "-"]]
    elif signed and rng.random() < .1:
        pre = [["+", "+"]]
    a = abs(x)
    s = dec(a)
    k = rng.random()
    if "." not in s:
        if k < .6:
            return pre + [["int", s if rng.random() < .93 else "0" + s]]
        if k < .75:
            return pre + [["float", s + ".0"]]
        if k < .85:
            return pre + [["float", s + "."]]
        return pre + [["float", s + rng.choice(["e0", "E+0", ".e0", ".00e-0"])]]
    if k < .7:
        return pre + [["float", s]]
    if k < .8:
        return pre + [["float", s + "0"]]
    e = rng.choice([-3, -2, -1, 1, 2])
    return pre + [["float", dec(a / F(10) ** e) + rng.choice(["e", "E"]) + (("+" if rng.random() < .5 else "")
                                                                           if e > 0 else "") + str(e)]]


NAMES = ["a", "b", "x1", "left", "Left", "go-left", "t_1", "Tt", "OO", "R1", "S", "states1", "e5", "E", "uniform1",
         "resetx", "obs-0", "listen", "open_door", "q" * 31, "q" * 32, "q" * 33, "q" * 40 + "1", "q" * 40 + "2", "n0", "z9"]


def names(rng, n):
    return rng.sample(NAMES, n)


class Gen:
    def __init__(self, rng, ns=None, na=None, no=None, nr=None):
        self.r, self.nr = rng, nr
        self.n = {"states": ns or rng.choice([1, 2, 2, 3, 3, 4]), "actions": na or rng.choice([1, 2, 2, 3]),
                  "observations": no or rng.choice([1, 2, 2, 3])}
        self.names = {k: (names(rng, v) if rng.random() < .5 else None) for k, v in self.n.items()}

    def ref(self, kind, i):
        if i is None:
            return ["*", "*"]
        if self.names[kind] and self.r.random() < .7:
            return ["str", self.names[kind][i]]
        return ["int", str(i)]

    def any(self, kind, wild=.3):
        return None if self.r.random() < wild else self.r.randrange(self.n[kind])

    def preamble(self):
        r = self.r
        out = []
        for k in ("states", "actions", "observations"):
            if self.names[k]:
                out.append([[k, k], [":", ":"]] + [["str", x] for x in self.names[k]])
            else:
                out.append([[k, k], [":", ":"], ["int", str(self.n[k])]])
        out.append([["discount", "discount"], [":", ":"]] +
                   num(r, r.choice([F(0), F(1, 2), F(95, 100), F(1), F(999, 1000)]), True))
        v = r.choice(["reward", "reward", "cost"])
        out.append([["values", "values"], [":", ":"], [v, v]])
        r.shuffle(out)
        return out

    def dist(self, n):
        return models.dist(self.r, n, self.r.choice([4, 8, 10, 20, 100]))

    def start(self):
        r, n = self.r, self.n["states"]
        k = r.choice(["none", "none", "vector", "uniform", "name", "include", "exclude", "include", "exclude"])
        if k == "none":
            return []
        if k == "vector":
            out = [["start", "start"], [":", ":"]]
            for x in self.dist(n):
                out += num(r, x)
            return [out]
        if k == "uniform":
            return [[["start", "start"], [":", ":"], ["uniform", "uniform"]]]
        if k == "name":
            if not self.names["states"]:
                return []
            return [[["start", "start"], [":", ":"], ["str", r.choice(self.names["states"])]]]
        m = r.randint(1, max(1, n - (k == "exclude")))
        xs = [r.randrange(n) for _ in range(m)]
        if r.random() < .05:
            xs[0] = None
        return [[["start", "start"], [k, k], [":", ":"]] + [self.ref("states", x) for x in xs]]

    def stmt(self, k, refs, body):
        kinds = {"T": ["actions", "states", "states"], "O": ["actions", "states", "observations"],
                 "R": ["actions", "states", "states", "observations"]}[k]
        out = [[k, k]]
        for kind, x in zip(kinds, refs):
            out += [[":", ":"], self.ref(kind, x)]
        return out + body

    def prow(self, xs):
        out = []
        for x in xs:
            out += num(self.r, x)
        return out

    def tables(self):
        """Statements that set every row of T and O, some again, and rewards."""
        r, n = self.r, self.n
        ns, na, no = n["states"], n["actions"], n["observations"]
        out = []
        for k, w in (("T", ns), ("O", no)):
            part = []
            mode = r.random()
            acts = [None] if mode < .3 else list(range(na))
            for a in acts:
                b = r.random()
                if b < .25:
                    part.append(self.stmt(k, [a], [["uniform", "uniform"]]))
                elif b < .4 and k == "T":
                    part.append(self.stmt(k, [a], [["identity", "identity"]]))
                elif b < .6:
                    body = []
                    for s in range(ns):
                        body += self.prow(self.dist(w))
                    part.append(self.stmt(k, [a], body))
                else:
                    for s in ([None] if r.random() < .3 else range(ns)):
                        part.append(self.row(k, a, s, w))
            if mode < .3 or r.random() < .5:
                # some rows again
                for _ in range(r.randint(0, 3)):
                    part.append(self.row(k, self.any("actions"), self.any("states"), w))
            if r.random() < .3:
                part += self.singles(k, self.any("actions", .2), self.any("states", .2), w)
            out.append(part)
        nr = self.nr or r.choice([0, 1, 2, 3, 4, 6, 10])
        part = [self.reward() for _ in range(nr)]
        if r.random() < .5:
            r.shuffle(part)
        out.append(part)
        r.shuffle(out)
        if r.random() < .3:      # interleaved
            res = []
            while any(out):
                res.append(r.choice([o for o in out if o]).pop(0))
            return res
        return [x for o in out for x in o]

    def row(self, k, a, s, w):
        r = self.r
        b = r.random()
        if b < .2:
            return self.stmt(k, [a, s], [["uniform", "uniform"]])
        if b < .4 and k == "T":
            return self.stmt(k, [a, s], [["reset", "reset"]])
        return self.stmt(k, [a, s], self.prow(self.dist(w)))

    def singles(self, k, a, s, w):
        d = list(enumerate(self.dist(w)))
        out = []
        if self.r.random() < .3:
            out.append(self.stmt(k, [a, s, None], num(self.r, 0)))
            d = [x for x in d if x[1] != 0]
        self.r.shuffle(d)
        return out + [self.stmt(k, [a, s, i], num(self.r, x)) for i, x in d]

    def rv(self):
        r = self.r
        return r.choice([F(0), F(0), F(r.randint(-9, 9)), F(r.randint(-999, 999), 100), F(r.randint(-5, 5) * 1000)])

    def reward(self):
        r, n = self.r, self.n
        m = r.choice([2, 3, 4, 4])
        refs = [self.any(k, .35) for k in ("actions", "states", "states", "observations")][:m]
        size = {4: 1, 3: n["observations"], 2: n["states"] * n["observations"]}[m]
        body = []
        for _ in range(size):
            body += num(r, self.rv(), True)
        return self.stmt("R", refs, body)

    def file(self):
        return self.preamble() + self.start() + self.tables()


# --------------------------------------------------------------- invalid files
def mutate(rng, stmts):
    """One change to a file, which usually makes it invalid."""
    st = [list(s) for s in stmts]
    r = rng
    k = r.choice(["deltok", "deltok", "duptok", "swaptok", "delstmt", "dupstmt", "swapstmt", "reptok", "reptok", "ref",
                  "ref", "prob", "prob", "name", "count", "discount", "ill", "trunc", "negprob", "extra", "kill", "short", "short", "short", "long"])
    i = r.randrange(len(st))
    j = r.randrange(len(st[i]))

    def where(f):
        ix = [(a, b) for a in range(len(st)) for b in range(len(st[a])) if f(st[a], b)]
        return r.choice(ix) if ix else None
    if k == "deltok":
        del st[i][j]
    elif k == "duptok":
        st[i].insert(j, list(st[i][j]))
    elif k == "swaptok":
        a, b = r.randrange(len(st)), 0
        b = r.randrange(len(st[a])) if st[a] else 0
        st[i][j], st[a][b] = st[a][b], st[i][j]
    elif k == "delstmt":
        del st[i]
    elif k == "dupstmt":
        st.insert(r.randrange(len(st) + 1), list(st[i]))
    elif k == "swapstmt":
        a = r.randrange(len(st))
        st[i], st[a] = st[a], st[i]
    elif k == "reptok":
        st[i][j] = r.choice([["int", "0"], ["int", "1"], ["float", "0.5"], [":", ":"], ["*", "*"], ["-", "-"],
                             ["+", "+"], ["str", "nosuch"], ["uniform", "uniform"], ["identity", "identity"],
                             ["reset", "reset"], ["T", "T"], ["O", "O"], ["R", "R"], ["start", "start"],
                             ["include", "include"], ["reward", "reward"], ["int", "3"]])
    elif k == "ref":
        w = where(lambda s, b: b >= 2 and s[b - 1][0] == ":" and s[0][0] in ("T", "O", "R", "start"))
        if w:
            st[w[0]][w[1]] = r.choice([["int", str(r.randrange(6))], ["str", "nosuch"], ["str", r.choice(NAMES)],
                                       ["int", "40"]])
    elif k == "prob":
        w = where(lambda s, b: s[0][0] in ("T", "O", "start") and s[b][0] in ("int", "float") and s[b - 1][0] != ":")
        if w:
            st[w[0]][w[1]] = r.choice([["float", "0.5"], ["float", "1.5"], ["int", "2"], ["float", "1.00001"],
                                       ["float", "0.99999"], ["float", "1.00003"], ["float", "0.99997"],
                                       ["float", "0.3333"], ["int", "1"], ["int", "0"], ["float", "0.000005"]])
    elif k == "negprob":
        w = where(lambda s, b: s[b][0] in ("int", "float"))
        if w:
            st[w[0]].insert(w[1], r.choice([["-", "-"], ["+", "+"]]))
    elif k == "name":
        w = where(lambda s, b: s[b][0] == "str")
        if w:
            st[w[0]][w[1]] = ["str", r.choice(NAMES)]
    elif k == "count":
        w = where(lambda s, b: s[0][0] in ("states", "actions", "observations") and s[b][0] == "int")
        if w:
            st[w[0]][w[1]] = ["int", str(r.randrange(5))]
    elif k == "discount":
        w = where(lambda s, b: s[0][0] == "discount" and s[b][0] in ("int", "float"))
        if w:
            st[w[0]][2:] = r.choice([[["float", "1.01"]], [["-", "-"], ["float", "0.5"]], [["int", "2"]],
                                     [["-", "-"], ["int", "1"]], [["str", "x"]], []])
    elif k == "ill":
        st[i].insert(j, ["ill", r.choice([",", ";", "%", "@", "(", "=", "."])])
    elif k == "trunc":
        st = st[:i] + [st[i][:j]]
    elif k == "extra":
        w = where(lambda s, b: s[b][0] in ("int", "float"))
        if w:
            st[w[0]].insert(w[1], list(st[w[0]][w[1]]))
    elif k in ("short", "long"):        # too few or too many entries that still add up
        def tail(s):
            b = len(s)
            while b and s[b - 1][0] in ("int", "float") and s[b - 2][0] != ":":
                b -= 1
            return len(s) - b
        c = [a for a in range(len(st)) if st[a] and st[a][0][0] in ("T", "O", "R", "start") and tail(st[a]) >= 2]
        if c:
            s = st[r.choice(c)]
            for _ in range(r.choice([1, 1, 2])):
                if k == "long":
                    s.insert(len(s) - r.randrange(tail(s)), ["int", "0"])
                elif tail(s) >= 2:
                    x = s.pop()
                    if s[0][0] != "R" and x[1] not in ("0", "0.0"):
                        s[-1] = num(r, F(s[-1][1]) + F(x[1]))[0]
    elif k == "kill":
        h = r.choice(["discount", "values", "states", "actions", "observations", "T", "O"])
        st = [s for s in st if not s or s[0][0] != h]
    return [s for s in st if s]


def render(rng, toks):
    """Text with these tokens."""
    style = rng.choice(["plain", "plain", "messy"])
    out = [rng.choice(["", "\n", "# a comment\n"])]
    prev = None
    for t, x in toks:
        if prev is not None:
            tight = prev[0] in (":", "*", "+", "-") or (t in (":", "*") and prev[0] != "ill") \
                or (t in ("+", "-") and prev[0] in ("int", "float"))
            if prev[0] == "*" and t in ("int", "float", "str"):
                tight = True
            if style == "plain":
                sep = "\n" if t in ("T", "O", "R", "start", "discount", "values", "states", "actions",
                                    "observations") else " "
            else:
                c = [" ", " ", "\t", "\n", "  ", "\r\n", " # T: 0 uniform\n", "\n\n#\n", " \t "]
                if tight:
                    c += ["", "", ""]
                sep = rng.choice(c)
            out.append(sep)
        out.append(x)
        prev = (t, x)
    out.append(rng.choice(["\n", "\n", "", "  \n\n", "\n# end", "#"]) if prev and prev[0] != "ill" else "\n")
    return "".join(out)


def flat(stmts):
    return [t for s in stmts for t in s]

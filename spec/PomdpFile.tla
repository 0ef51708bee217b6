----------------------------- MODULE PomdpFile -----------------------------
(* What a file in the POMDP format means: a machine that reads the file's   *)
(* tokens one statement at a time, and either rejects it or ends with the   *)
(* model the file describes.                                                *)
(*                                                                          *)
(* A token is <<kind, text>>; kinds are int, float, str (identifier), the   *)
(* punctuation : * + - and the reserved words.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Rat

\* states of the reader
\*   ph    preamble, start, params, done or bad
\*   disc, vals, n[kind], names[kind]   the preamble so far ("" / 0: not given)
\*   dup   something of the preamble was given twice (meaning not defined here)
\*   T, O, R, b   the tables and the initial belief
Blank == [ph |-> "preamble", disc |-> "", vals |-> "",
          n |-> [k \in {"states", "actions", "observations"} |-> 0],
          names |-> [k \in {"states", "actions", "observations"} |-> <<>>],
          dup |-> FALSE, why |-> "", T |-> <<>>, O |-> <<>>, R |-> <<>>, b |-> <<>>]

EOFT == <<"eof", "">>
Tok(toks, i) == IF i <= Len(toks) THEN toks[i] ELSE EOFT
K(toks, i) == Tok(toks, i)[1]
X(toks, i) == Tok(toks, i)[2]

Unit == "uniform"
IsNum(toks, i) == K(toks, i) \in {"int", "float"}
IsRef(toks, i) == K(toks, i) \in {"int", "str", "*"}

(* Lists of unsigned numbers, of signed numbers, of identifiers, of         *)
(* references: the position after the list, and the list.                   *)
RECURSIVE EndRun(_, _, _)
EndRun(toks, i, kinds) == IF K(toks, i) \in kinds THEN EndRun(toks, i + 1, kinds) ELSE i

Texts(toks, i, j) == [x \in 1..(j - i) |-> X(toks, i + x - 1)]

RECURSIVE Signed(_, _, _)
Signed(toks, i, acc) ==
  CASE IsNum(toks, i) -> Signed(toks, i + 1, Append(acc, R(X(toks, i))))
    [] K(toks, i) \in {"+", "-"} /\ IsNum(toks, i + 1) ->
         Signed(toks, i + 2, Append(acc, IF K(toks, i) = "-" THEN RNeg(X(toks, i + 1)) ELSE R(X(toks, i + 1))))
    [] OTHER -> [end |-> i, v |-> acc]

Bad(s, why) == [s EXCEPT !.ph = "bad", !.why = why]
Go(s, i) == [s |-> s, i |-> i]
No(s, i, why) == Go(Bad(s, why), i)

Prob(x) == RLeq(0, x) /\ RLeq(x, 1)

Range(s) == {s[x] : x \in DOMAIN s}
\* natural numbers up to the sizes used here (007 is 7)
NatOf(t) == IF \E n \in 0..40 : ToString(n) = t THEN CHOOSE n \in 0..40 : ToString(n) = t
            ELSE IF \E n \in 0..40 : REq(n, t) THEN CHOOSE n \in 0..40 : REq(n, t) ELSE 999
IndexOf(seq, x) == CHOOSE i \in 1..Len(seq) : seq[i] = x

(* A reference to a state, action or observation: the set it stands for     *)
(* (numbers count from 0), empty when there is no such thing.               *)
Refer(s, kind, tok) ==
  LET n == s.n[kind]
  IN CASE tok[1] = "*" -> 0..(n - 1)
       [] tok[1] = "int" -> IF NatOf(tok[2]) < n THEN {NatOf(tok[2])} ELSE {}
       [] tok[1] = "str" -> IF tok[2] \in Range(s.names[kind])
                            THEN {IndexOf(s.names[kind], tok[2]) - 1} ELSE {}
       [] OTHER -> {}

(* ---------------------------------------------------------- the preamble *)
Preamble(s, toks, i) ==
  LET k == K(toks, i) IN
  IF k \notin {"discount", "values", "states", "actions", "observations"}
  THEN IF s.disc = "" \/ s.vals = "" \/ s.n["states"] = 0 \/ s.n["actions"] = 0
       THEN No(s, i, "missing declaration")
       ELSE IF s.n["observations"] = 0 THEN No(s, i, "no observations")
       ELSE Go([s EXCEPT !.ph = "start"], i)
  ELSE IF K(toks, i + 1) # ":" THEN No(s, i, "syntax")
  ELSE CASE k = "discount" ->
              LET sg == K(toks, i + 2) \in {"+", "-"}
                  at == IF sg THEN i + 3 ELSE i + 2
              IN IF ~IsNum(toks, at) THEN No(s, i, "syntax")
                 ELSE LET d == IF K(toks, i + 2) = "-" THEN RNeg(X(toks, at)) ELSE R(X(toks, at))
                      IN IF ~Prob(d) THEN No(s, i, "discount out of range")
                         ELSE Go([s EXCEPT !.disc = RStr(d), !.dup = @ \/ s.disc # ""], at + 1)
         [] k = "values" ->
              IF K(toks, i + 2) \notin {"reward", "cost"} THEN No(s, i, "syntax")
              ELSE Go([s EXCEPT !.vals = K(toks, i + 2), !.dup = @ \/ s.vals # ""], i + 3)
         [] OTHER ->
              IF K(toks, i + 2) = "int"
              THEN IF NatOf(X(toks, i + 2)) < 1 THEN No(s, i, "none of " \o k)
                   ELSE Go([s EXCEPT !.n[k] = NatOf(X(toks, i + 2)), !.dup = @ \/ s.n[k] # 0], i + 3)
              ELSE IF K(toks, i + 2) # "str" THEN No(s, i, "syntax")
              ELSE LET e == EndRun(toks, i + 2, {"str"})
                       nm == Texts(toks, i + 2, e)
                   IN IF Cardinality(Range(nm)) # Len(nm) THEN No(s, i, "a name twice")
                      ELSE Go([s EXCEPT !.n[k] = Len(nm), !.names[k] = nm, !.dup = @ \/ s.n[k] # 0], e)

(* ------------------------------------------------------- the start belief *)
Near1(x) == RLeq(RAbs(RSub(x, 1)), "1.001e-5")     \* certainly wrong beyond
Sure1(x) == RLeq(RAbs(RSub(x, 1)), "0.999e-5")     \* certainly fine within

Tables(s) ==
  LET S == 0..(s.n["states"] - 1)
      A == 0..(s.n["actions"] - 1)
      Z == 0..(s.n["observations"] - 1)
      z0 == R(0)
  IN [s EXCEPT !.ph = "params", !.T = [x \in A \X S \X S |-> z0], !.O = [x \in A \X S \X Z |-> z0],
               !.R = [x \in A \X S \X S \X Z |-> z0]]

Uniform(n) == [x \in 0..(n - 1) |-> RDiv(1, n)]
On(n, set) == [x \in 0..(n - 1) |-> IF x \in set THEN RDiv(1, Cardinality(set)) ELSE R(0)]
SumF(f, n) == RSum([x \in 1..n |-> f[x - 1]])

StartState(s, toks, i) ==
  LET n == s.n["states"]
      With(b, j) == Go(Tables([s EXCEPT !.b = b]), j)
  IN
  IF K(toks, i) # "start" THEN With(Uniform(n), i)
  ELSE CASE K(toks, i + 1) = ":" /\ K(toks, i + 2) = "str" ->
              LET r == Refer(s, "states", Tok(toks, i + 2))
              IN IF r = {} THEN No(s, i, "unknown state") ELSE With(On(n, r), i + 3)
         [] K(toks, i + 1) = ":" /\ K(toks, i + 2) = "uniform" -> With(Uniform(n), i + 3)
         [] K(toks, i + 1) = ":" /\ IsNum(toks, i + 2) ->
              LET e == EndRun(toks, i + 2, {"int", "float"})
                  v == RVec(Texts(toks, i + 2, e))
              IN IF Len(v) # n \/ ~(\A x \in Range(v) : Prob(x)) \/ ~Near1(RSum(v))
                 THEN No(s, i, "start belief")
                 ELSE LET g == With([x \in 0..(n - 1) |-> v[x + 1]], e)
                      IN IF Sure1(RSum(v)) THEN g ELSE [g EXCEPT !.s.dup = TRUE]
         [] K(toks, i + 1) \in {"include", "exclude"} /\ K(toks, i + 2) = ":" /\ IsRef(toks, i + 3) ->
              LET e == EndRun(toks, i + 3, {"int", "str", "*"})
                  rs == {Refer(s, "states", toks[x]) : x \in (i + 3)..(e - 1)}
                  u == UNION rs
                  in == IF K(toks, i + 1) = "include" THEN u ELSE (0..(n - 1)) \ u
              IN IF {} \in rs THEN No(s, i, "unknown state")
                 ELSE IF in = {} THEN No(s, i, "no start state")
                 ELSE With(On(n, in), e)
         [] OTHER -> No(s, i, "syntax")

(* -------------------------------------------------- T, O and R statements *)
Put(tab, dom, val(_)) == [x \in DOMAIN tab |-> IF x \in dom THEN val(x) ELSE tab[x]]

\* The references of a statement: positions of up to max of them from i on,
\* separated by colons
RECURSIVE Refs(_, _, _)
Refs(toks, i, max) ==
  IF ~IsRef(toks, i) THEN [ok |-> FALSE, at |-> <<>>, end |-> i]
  ELSE IF K(toks, i + 1) = ":" /\ max > 1
       THEN LET r == Refs(toks, i + 2, max - 1)
            IN [r EXCEPT !.at = <<i>> \o @]
       ELSE [ok |-> TRUE, at |-> <<i>>, end |-> i + 1]

(* A table statement: kinds are those of its references in order; rows is   *)
(* the number of references that leaves one number, a row or a matrix.      *)
Statement(s, toks, i) ==
  LET k == K(toks, i)
      kinds == CASE k = "T" -> <<"actions", "states", "states">>
                 [] k = "O" -> <<"actions", "states", "observations">>
                 [] OTHER -> <<"actions", "states", "states", "observations">>
      tab == CASE k = "T" -> s.T [] k = "O" -> s.O [] OTHER -> s.R
      full == Len(kinds)
      n == s.n
      r == Refs(toks, i + 2, full)
      sets == [x \in 1..Len(r.at) |-> Refer(s, kinds[x], toks[r.at[x]])]
      m == Len(sets)
      open == [x \in 1..(full - m) |-> n[kinds[m + x]]]     \* sizes of the open places
      size == IF full - m = 0 THEN 1 ELSE IF full - m = 1 THEN open[1] ELSE open[1] * open[2]
      dom == {x \in DOMAIN tab : \A y \in 1..m : x[y] \in sets[y]}
      Pos(x) == IF full - m = 0 THEN 1
                ELSE IF full - m = 1 THEN x[full] + 1
                ELSE x[full - 1] * open[2] + x[full] + 1
      Set(t) == CASE k = "T" -> [s EXCEPT !.T = t] [] k = "O" -> [s EXCEPT !.O = t] [] OTHER -> [s EXCEPT !.R = t]
      w == K(toks, r.end)
  IN
  IF K(toks, i + 1) # ":" \/ ~r.ok THEN No(s, i, "syntax")
  ELSE IF \E x \in 1..m : sets[x] = {} THEN No(s, i, "unknown reference")
  ELSE IF full - m > 2 THEN No(s, i, "R with an action only")
  ELSE IF w = "uniform"
       THEN IF k = "R" \/ full = m THEN No(s, i, "syntax")
            ELSE Go(Set(Put(tab, dom, LAMBDA x : RDiv(1, n[kinds[full]]))), r.end + 1)
  ELSE IF w = "identity"
       THEN IF k # "T" \/ m # 1 THEN No(s, i, "syntax")
            ELSE Go(Set(Put(tab, dom, LAMBDA x : IF x[2] = x[3] THEN R(1) ELSE R(0))), r.end + 1)
  ELSE IF w = "reset"
       THEN IF k # "T" \/ m # 2 THEN No(s, i, "reset")
            ELSE Go(Set(Put(tab, dom, LAMBDA x : s.b[x[3]])), r.end + 1)
  ELSE LET e == IF full = m THEN IF IsNum(toks, r.end) THEN r.end + 1 ELSE r.end
                ELSE EndRun(toks, r.end, {"int", "float"})
           un == [end |-> e, v |-> RVec(Texts(toks, r.end, e))]
           one == LET a == Signed(toks, r.end, <<>>)
                  IN IF a.v = <<>> THEN a
                     ELSE [end |-> IF IsNum(toks, r.end) THEN r.end + 1 ELSE r.end + 2, v |-> <<a.v[1]>>]
           num == IF k # "R" THEN un ELSE IF full = m THEN one ELSE Signed(toks, r.end, <<>>)
           v == num.v
       IN IF v = <<>> THEN No(s, i, "syntax")
          ELSE IF k # "R" /\ ~(\A x \in Range(v) : Prob(x)) THEN No(s, i, "not a probability")
          ELSE IF Len(v) # size THEN No(s, i, "number of entries")
          ELSE Go(Set(Put(tab, dom, LAMBDA x : v[Pos(x)])), num.end)

(* ------------------------------------------------------------- the end *)
RowSums(s) ==
  LET S == 0..(s.n["states"] - 1)
      A == 0..(s.n["actions"] - 1)
  IN {SumF([t \in S |-> s.T[<<a, x, t>>]], s.n["states"]) : a \in A, x \in S}
     \cup {SumF([z \in 0..(s.n["observations"] - 1) |-> s.O[<<a, x, z>>]], s.n["observations"]) :
             a \in A, x \in S}

Finish(s, i) ==
  LET sums == RowSums(s)
  IN IF \E x \in sums : ~Near1(x) THEN No(s, i, "rows do not add up to 1")
     ELSE Go([s EXCEPT !.ph = "done", !.dup = @ \/ \E x \in sums : ~Sure1(x)], i)

(* The next statement, at position i.                                       *)
ReadOne(s, toks, i) ==
  CASE s.ph = "preamble" -> Preamble(s, toks, i)
    [] s.ph = "start" -> StartState(s, toks, i)
    [] s.ph = "params" -> IF K(toks, i) \in {"T", "O", "R"} THEN Statement(s, toks, i)
                          ELSE IF K(toks, i) = "eof" THEN Finish(s, i)
                          ELSE No(s, i, "syntax")
    [] OTHER -> Go(s, i)

(* Expected immediate reward of an action in a state.                       *)
ImmReward(s, a, x) ==
  LET S == 0..(s.n["states"] - 1)
      nz == s.n["observations"]
  IN SumF([t \in S |-> RMul(s.T[<<a, x, t>>],
                            SumF([z \in 0..(nz - 1) |-> RMul(s.O[<<a, t, z>>], s.R[<<a, x, t, z>>])], nz))],
          s.n["states"])
=============================================================================

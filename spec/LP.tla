--------------------------------- MODULE LP ---------------------------------
(* Linear programs: what a solution is, and when there is none.             *)
(* P = [max: BOOLEAN, c: objective, rows: sequence of [s: "L", "G" or "E",  *)
(* r: right hand side, a: coefficients], lo, up: bounds ("inf": none)].     *)
(* Whoever claims an outcome shows a certificate:                           *)
(*   optimal: a point x and multipliers y that bound the objective by the   *)
(*            value x has                                                   *)
(*   infeasible: multipliers y with which the rows contradict the bounds    *)
(*   unbounded: a point x and a direction y to go up without end            *)
EXTENDS Rat, Integers, Sequences, TLC

RECURSIVE RMinTo(_, _)
RMinTo(s, n) == IF n = 1 THEN R(s[1]) ELSE RMin(s[n], RMinTo(s, n - 1))
RMinSeq(s) == RMinTo(s, Len(s))

Obj(P) == IF P.max THEN P.c ELSE [j \in DOMAIN P.c |-> RSub(0, P.c[j])]
Dim(P) == Len(P.c)

RowOk(w, x, tol) ==
  LET v == RDot(w.a, x)
  IN CASE w.s = "L" -> RLeq(v, RAdd(w.r, tol))
       [] w.s = "G" -> RLeq(w.r, RAdd(v, tol))
       [] w.s = "E" -> RLeq(v, RAdd(w.r, tol)) /\ RLeq(w.r, RAdd(v, tol))
Feasible(P, x, tol) ==
  /\ Len(x) = Dim(P)
  /\ \A i \in DOMAIN P.rows : RowOk(P.rows[i], x, tol)
  /\ \A j \in 1..Dim(P) : /\ (P.lo[j] = "inf" \/ RLeq(P.lo[j], RAdd(x[j], tol)))
                          /\ (P.up[j] = "inf" \/ RLeq(x[j], RAdd(P.up[j], tol)))

Signed(P, y) == \A i \in DOMAIN P.rows : CASE P.rows[i].s = "L" -> RLeq(0, y[i])
                                           [] P.rows[i].s = "G" -> RLeq(y[i], 0)
                                           [] OTHER -> TRUE
Column(P, j) == [i \in DOMAIN P.rows |-> P.rows[i].a[j]]
Left(P, c, y) == TLCEval([j \in 1..Dim(P) |-> RSub(c[j], RDot(Column(P, j), y))])
Bounded(P, d) == \A j \in 1..Dim(P) : /\ (RLt(0, d[j]) => P.up[j] # "inf")
                                      /\ (RLt(d[j], 0) => P.lo[j] # "inf")
(* No feasible point has an objective c.x above this.                       *)
Bound(P, c, y) ==
  LET d == Left(P, c, y)
  IN RAdd(RDot([i \in DOMAIN P.rows |-> P.rows[i].r], y),
          RSum([j \in 1..Dim(P) |-> CASE RLt(0, d[j]) -> RMul(d[j], P.up[j])
                                      [] RLt(d[j], 0) -> RMul(d[j], P.lo[j])
                                      [] OTHER -> "0"]))
None(P) == [j \in 1..Dim(P) |-> "0"]

Optimal(P, x, y) == /\ Feasible(P, x, 0) /\ Signed(P, y)
                    /\ Bounded(P, Left(P, Obj(P), y))
                    /\ REq(RDot(Obj(P), x), Bound(P, Obj(P), y))
Infeasible(P, y) == /\ Signed(P, y)
                    /\ Bounded(P, Left(P, None(P), y))
                    /\ RLt(Bound(P, None(P), y), 0)
Unbounded(P, x, d) ==
  /\ Feasible(P, x, 0)
  /\ \A i \in DOMAIN P.rows : RowOk([P.rows[i] EXCEPT !.r = "0"], d, 0)
  /\ \A j \in 1..Dim(P) : (P.lo[j] # "inf" => RLeq(0, d[j])) /\ (P.up[j] # "inf" => RLeq(d[j], 0))
  /\ RLt(0, RDot(Obj(P), d))

(* ---------------------------------------------------------- witness points *)
(* The region of a vector v over a list of others: the belief points where  *)
(* v is better than all of them.                                            *)
Margin(v, list, b) == RMinSeq([i \in DOMAIN list |-> RSub(RDot(v, b), RDot(list[i], b))])
Belief(b, tol) == /\ \A s \in DOMAIN b : RLeq(RSub(0, tol), b[s])
                  /\ RLeq(RAbs(RSub(RSum(b), 1)), tol)
(* At no belief point is v better than all others by more than m: some      *)
(* mixture w of the others is nowhere more than m below v.                  *)
NoBetter(v, list, w, m) ==
  /\ \A i \in DOMAIN list : RLeq(0, w[i])
  /\ REq(RSum(w), 1)
  /\ \A s \in DOMAIN v : RLeq(RSub(v[s], RDot([i \in DOMAIN list |-> list[i][s]], w)), m)
=============================================================================

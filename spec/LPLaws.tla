------------------------------ MODULE LPLaws --------------------------------
(* That a certificate decides: TLC compares what LP.tla accepts as one with *)
(* the points of small programs, for every claim there is to make of them.  *)
EXTENDS LP

CONSTANTS Rows,                 \* number of rows
          Senses, Max,          \* what rows and objectives to take
          Reach                 \* points have coordinates 0..Reach

Small == {-1, 0, 1}
Points == [1..2 -> 0..Reach]
Programs == [max: Max, c: [1..2 -> Small], lo: {<<"0", "0">>}, up: {<<"inf", "2">>},
             rows: [1..Rows -> [s: Senses, r: Small, a: [1..2 -> Small]]]]

VARIABLES P, y, x
vars == <<P, y, x>>
Init == P \in Programs /\ y \in [1..Rows -> Small] /\ x \in Points
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Better(p, q) == RLt(RDot(Obj(P), q), RDot(Obj(P), p))
Laws ==
  /\ Optimal(P, x, y) => \A p \in Points : Feasible(P, p, 0) => ~Better(p, x)
  /\ Infeasible(P, y) => ~Feasible(P, x, 0)
  \* the point x as a direction from the point <<0, 0>>
  /\ Unbounded(P, <<0, 0>>, x) => \A k \in 1..3 :
       /\ Feasible(P, <<k * x[1], k * x[2]>>, 0)
       /\ Better(<<k * x[1], k * x[2]>>, <<0, 0>>)
  \* witness points: the two rows as vectors, against the objective
  /\ Rows = 2 =>
       LET list == <<P.rows[1].a, P.rows[2].a>>
       IN NoBetter(P.c, list, y, P.rows[1].r) =>
            \A b \in {<<k, Reach - k>> : k \in 0..Reach} :
              RLeq(Margin(P.c, list, [i \in 1..2 |-> RDiv(b[i], Reach)]), P.rows[1].r)
=============================================================================

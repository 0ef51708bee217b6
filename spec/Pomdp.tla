------------------------------- MODULE Pomdp -------------------------------
(* What a POMDP model means: the one-step dynamic programming operator on   *)
(* value functions, its value at a belief, the surface a set of vectors     *)
(* stands for, and when a vector of a set is useless.                       *)
(*                                                                          *)
(* A model M (as read from JSON; numbers are strings) is a record           *)
(*   ns, na, no    sizes                                                    *)
(*   g             discount factor                                          *)
(*   T[a][s][t]    transition probabilities                                 *)
(*   O[a][t][z]    observation probabilities                                *)
(*   R             rewards: a sequence of entries [a, s, t, z, v], 0 meaning *)
(*                 "every"; a later entry overrides an earlier one          *)
(*   cost          TRUE when the values are costs                           *)
(* A value function is a sequence of vectors (sequences of rationals).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat

Max(a, b) == IF a >= b THEN a ELSE b

-----------------------------------------------------------------------------
(* Rewards.                                                                 *)

Matches(e, a, s, t, z) ==
  /\ e.a \in {0, a} /\ e.s \in {0, s} /\ e.t \in {0, t} /\ e.z \in {0, z}

RECURSIVE LastMatch(_, _, _, _, _, _)
LastMatch(R_, k, a, s, t, z) ==
  IF k = 0 THEN R(0)
  ELSE IF Matches(R_[k], a, s, t, z) THEN R(R_[k].v)
  ELSE LastMatch(R_, k - 1, a, s, t, z)

Reward(M, a, s, t, z) == LastMatch(M.R, Len(M.R), a, s, t, z)

(* Expected immediate reward; costs are negative rewards.                   *)
Q(M, a, s) ==
  LET q == RSum([t \in 1..M.ns |->
             RMul(M.T[a][s][t],
                  RSum([z \in 1..M.no |->
                     IF REq(M.T[a][s][t], 0) \/ REq(M.O[a][t][z], 0) THEN R(0)
                     ELSE RMul(M.O[a][t][z], Reward(M, a, s, t, z))]))])
  IN IF M.cost THEN RNeg(q) ELSE q

(* The tables that all else uses, evaluated once per model:                 *)
(*   W[a][z][s] is the sequence over t of  g * P(t, z | s, a).              *)
Derive(M) == TLCEval(
  [ns |-> M.ns, na |-> M.na, no |-> M.no, g |-> R(M.g),
   Q |-> [a \in 1..M.na |-> TLCEval([s \in 1..M.ns |-> Q(M, a, s)])],
   poss |-> [a \in 1..M.na |-> TLCEval([z \in 1..M.no |->
               \E s, t \in 1..M.ns : ~REq(RMul(M.T[a][s][t], M.O[a][t][z]), 0)])],
   PO |-> [a \in 1..M.na |-> TLCEval([z \in 1..M.no |-> TLCEval([s \in 1..M.ns |->
            RVec([t \in 1..M.ns |-> RMul(M.T[a][s][t], M.O[a][t][z])])])])],
   W |-> [a \in 1..M.na |-> TLCEval([z \in 1..M.no |-> TLCEval([s \in 1..M.ns |->
            RVec([t \in 1..M.ns |-> RMul(R(M.g), RMul(M.T[a][s][t], M.O[a][t][z]))])])])]])

-----------------------------------------------------------------------------
(* The backup of a value function.                                          *)

Zero(D) == [s \in 1..D.ns |-> R(0)]

(* The part of a backed-up vector that observation z contributes.           *)
GVec(D, alpha, a, z) == RVec([s \in 1..D.ns |-> RDot(D.W[a][z][s], alpha)])

(* G[a][z][i], the projections of V[i].                                     *)
Project(D, V) == TLCEval([a \in 1..D.na |-> TLCEval([z \in 1..D.no |->
                    TLCEval([i \in 1..Len(V) |-> GVec(D, V[i], a, z)])])])

RECURSIVE SumVecs(_, _, _)
SumVecs(D, f, z) == IF z = 0 THEN Zero(D) ELSE RVAdd(f[z], SumVecs(D, f, z - 1))

(* The value of taking a and then following V[sigma[z]] when z is seen.     *)
PlanVec(D, G, a, sigma) ==
  RVAdd(D.Q[a], SumVecs(D, [z \in 1..D.no |->
                   IF D.poss[a][z] THEN G[a][z][sigma[z]] ELSE Zero(D)], D.no))

(* Value of a and of the best action at belief b, one step before V.        *)
LookA(D, G, a, b) ==
  RAdd(RDot(D.Q[a], b),
       RSum([z \in 1..D.no |-> IF D.poss[a][z] THEN RMaxDot(G[a][z], b) ELSE R(0)]))

RECURSIVE LookTo(_, _, _, _)
LookTo(D, G, a, b) == IF a = 1 THEN LookA(D, G, 1, b)
                      ELSE RMax(LookA(D, G, a, b), LookTo(D, G, a - 1, b))
Look(D, G, b) == LookTo(D, G, D.na, b)

(* Value of a set of vectors at a belief.                                   *)
Val(V, b) == RMaxDot(V, b)

-----------------------------------------------------------------------------
(* Beliefs that decide whether a convex piecewise linear function lies      *)
(* above the surface of V everywhere or nowhere exceeds it: the difference  *)
(* is convex on each linear piece of V, so its maximum is at a vertex of a  *)
(* piece.  Computed for 2 and 3 states; for more, the trace supplies them.  *)

Corners(n) == {[s \in 1..n |-> IF s = c THEN R(1) ELSE R(0)] : c \in 1..n}

Cross2(u, v) ==   \* belief(s) where u . b = v . b, two states
  LET d1 == RSub(u[1], v[1])
      d2 == RSub(u[2], v[2])
  IN IF (RLt(d1, 0) /\ RLt(0, d2)) \/ (RLt(d2, 0) /\ RLt(0, d1))
     THEN LET b1 == RDiv(d2, RSub(d2, d1)) IN {<<b1, RSub(1, b1)>>}
     ELSE {}

Verts2(V) ==
  Corners(2) \cup
  UNION { {b \in Cross2(V[i], V[j]) : RLeq(Val(V, b), RDot(V[i], b))} :
          <<i, j>> \in {<<x, y>> \in (1..Len(V)) \X (1..Len(V)) : x < y} }

(* Three states: solve  d . b = 0, e . b = 0, sum b = 1  for d the          *)
(* difference of two vectors and e either another difference or a face.     *)
Solve3(d, e) ==
  LET x == RSub(RMul(d[2], e[3]), RMul(d[3], e[2]))   \* cross product
      y == RSub(RMul(d[3], e[1]), RMul(d[1], e[3]))
      w == RSub(RMul(d[1], e[2]), RMul(d[2], e[1]))
      n == RAdd(x, RAdd(y, w))
  IN IF REq(n, 0) THEN {}
     ELSE LET b == RVec(<<RDiv(x, n), RDiv(y, n), RDiv(w, n)>>)
          IN IF \A s \in 1..3 : RLeq(0, b[s]) THEN {b} ELSE {}

Sub(u, v) == [s \in 1..Len(u) |-> RSub(u[s], v[s])]

Verts3(V) ==
  LET n == Len(V)
      Face(s) == [i \in 1..3 |-> IF i = s THEN R(1) ELSE R(0)]
      Pairs == {<<x, y>> \in (1..n) \X (1..n) : x < y}
  IN Corners(3) \cup
     UNION { LET i == p[1]  d == TLCEval(RVec(Sub(V[p[1]], V[p[2]])))
             IN { b \in UNION ({Solve3(d, Face(s)) : s \in 1..3} \cup
                               {Solve3(d, Sub(V[i], V[k])) : k \in (p[2] + 1)..n}) :
                  RLeq(Val(V, b), RDot(V[i], b)) }
             : p \in Pairs }

(* hints: beliefs the trace supplies (always used as well)                  *)
Verts(ns, V, hints) ==
  (CASE ns = 2 -> Verts2(V)
     [] ns = 3 -> Verts3(V)
     [] OTHER  -> Corners(ns))
  \cup {RVec(hints[i]) : i \in 1..Len(hints)}

IsBelief(b) == (\A s \in 1..Len(b) : RLeq(0, b[s])) /\ REq(RSum(b), 1)

-----------------------------------------------------------------------------
(* Usefulness of V[i] in V.  A belief with a positive margin shows that the *)
(* vector is needed; weights of a convex combination of the others that is  *)
(* nowhere below it show that it is not.                                    *)

Others(V, i) == [j \in 1..(Len(V) - 1) |-> IF j < i THEN V[j] ELSE V[j + 1]]

NeededAt(V, i, b, margin) ==
  \/ Len(V) = 1
  \/ RLeq(RAdd(Val(Others(V, i), b), margin), RDot(V[i], b))

Useless(V, i, lambda, slack) ==
  LET U == Others(V, i)
  IN /\ Len(lambda) = Len(U)
     /\ \A j \in 1..Len(U) : RLeq(0, lambda[j])
     /\ REq(RSum(lambda), 1)
     /\ \A s \in 1..Len(V[i]) :
          RLeq(RSub(V[i][s], slack), RDot(lambda, [j \in 1..Len(U) |-> U[j][s]]))

(* Two states, decided without certificates: the margin of V[i] over the    *)
(* others is concave and linear between the corners and the crossings of    *)
(* two of the others, so it is largest at one of those.                     *)
Needed2(V, i, margin) ==
  LET U == Others(V, i)
  IN \/ Len(V) = 1
     \/ \E b \in Corners(2) \cup UNION {Cross2(U[p[1]], U[p[2]]) : p \in (1..Len(U)) \X (1..Len(U))} :
           NeededAt(V, i, b, margin)

LexLess(u, v) == \E k \in 1..Len(u) : /\ \A j \in 1..(k - 1) : REq(u[j], v[j])
                                      /\ RLt(u[k], v[k])
=============================================================================

--------------------------- MODULE ValueIteration ---------------------------
(* One run of exact value iteration, as a user sees it: after every epoch a *)
(* value function W (a sequence of records a |-> action, v |-> vector) and  *)
(* a policy graph P (id, a, l |-> links), made from the previous one V; a   *)
(* reported error; a decision to stop or to go on; at the end the final     *)
(* files.  Numbers are rationals; eps and tol bound the rounding of the     *)
(* program's arithmetic (eps) and of its linear programs (tol).             *)
EXTENDS Pomdp

Vecs(W) == [i \in 1..Len(W) |-> W[i].v]

-----------------------------------------------------------------------------
(* The value function.                                                      *)

ShapeOk(D, W) == /\ Len(W) > 0
                 /\ \A i \in 1..Len(W) : W[i].a \in 0..(D.na - 1) /\ Len(W[i].v) = D.ns

(* Sorted lexicographically.  The program takes components that differ by   *)
(* no more than rounding for equal, which is no order; where there are such *)
(* components only the first component is looked at, with slack.            *)
Clean(W) == \A i, j \in 1..Len(W) : i < j => \A s \in 1..Len(W[i].v) :
              LET d == RAbs(RSub(W[i].v[s], W[j].v[s])) IN REq(d, 0) \/ RLeq("1e-9", d)

Sorted(W) ==
  LET clean == TLCEval(Clean(W))
  IN \A i \in 1..(Len(W) - 1) :
       IF clean THEN ~LexLess(W[i + 1].v, W[i].v)
       ELSE RLeq(RSub(W[i].v[1], "1e-9"), W[i + 1].v[1])

(* w is (up to eps) the value of action a and some choice of the previous   *)
(* vectors, one per observation.                                            *)
RECURSIVE AnyPlan(_, _, _, _, _, _)
AnyPlan(D, G, a, z, rest, eps) ==
  IF z = 0 THEN \A s \in 1..D.ns : RLeq(RAbs(rest[s]), eps)
  ELSE IF ~D.poss[a][z] THEN AnyPlan(D, G, a, z - 1, rest, eps)
  ELSE \E i \in 1..Len(G[a][z]) :
         AnyPlan(D, G, a, z - 1, RVAdd(rest, RVScale(-1, G[a][z][i])), eps)

Achieved(D, G, w, eps) ==
  AnyPlan(D, G, w.a + 1, D.no, RVAdd(w.v, RVScale(-1, D.Q[w.a + 1])), eps)

LinksAchieve(D, G, w, links, eps) ==
  RLeq(RVDist(w.v, PlanVec(D, G, w.a + 1, [z \in 1..D.no |-> links[z] + 1])), eps)

(* W lies nowhere below the backup of V: tested at the beliefs bs, which    *)
(* include the vertices of the pieces of W.                                 *)
Short(D, G, W, bs, tol) == {b \in bs : RLt(RAdd(Val(Vecs(W), b), tol), Look(D, G, b))}

(* How far an epoch may fall short of the backup when the user asked for    *)
(* approximate pruning.  An epsilon purge loses up to its epsilon, the one  *)
(* of the projections once for every observation; vectors better by less    *)
(* than the general epsilon may be missed by each linear program on the way *)
(* from the projections to the result.                                      *)
(* The variations of incremental pruning compare a vector with sums that    *)
(* may themselves have been given up: no bound follows from a coarse epsilon. *)
Bounded(o) == o.method = "incprune" /\ o.ip # "normal" => RLeq(o.eps, "1e-9")
Loss(no, o) ==
  LET once == (IF o.method = "enum" THEN o.enum ELSE o.q) = "epsilon_prune"
      n == (IF once THEN 1 ELSE 0) + (IF o.proj = "epsilon_prune" THEN no ELSE 0)
  IN RAdd(RMul(n, o.peps), IF RLeq(o.eps, "1e-9") THEN 0 ELSE RMul(2 * no + 2, o.eps))

-----------------------------------------------------------------------------
(* The policy graph.                                                        *)

PgShapeOk(D, V, W, P) ==
  /\ Len(P) = Len(W)
  /\ \A i \in 1..Len(P) : /\ P[i].id = i - 1
                          /\ P[i].a = W[i].a
                          /\ Len(P[i].l) = D.no

PgLinksOk(D, V, W, P) ==
  \A i \in 1..Len(P) : \A z \in 1..D.no :
     IF D.poss[W[i].a + 1][z] THEN P[i].l[z] \in 0..(Len(V) - 1) ELSE P[i].l[z] = -1

-----------------------------------------------------------------------------
(* Errors and stopping.                                                     *)

RECURSIVE MinDist(_, _, _)
MinDist(v, U, k) == IF k = 1 THEN RVDist(v, U[1])
                    ELSE RMin(RVDist(v, U[k]), MinDist(v, U, k - 1))

RECURSIVE WeakTo(_, _, _)
WeakTo(U, V, k) == IF k = 1 THEN MinDist(V[1], U, Len(U))
                   ELSE RMax(MinDist(V[k], U, Len(U)), WeakTo(U, V, k - 1))
(* largest distance from a new vector to the nearest old one                *)
WeakError(U, V) == WeakTo(U, V, Len(V))

RECURSIVE MaxOf(_, _)
MaxOf(x, S) == IF S = {} THEN x ELSE LET b == CHOOSE b \in S : TRUE IN MaxOf(RMax(x, b), S \ {b})

(* sup |V - U|; for two and three states                                    *)
BellmanError(ns, U, V) ==
  MaxOf(R(0), {RSub(Val(V, b), Val(U, b)) : b \in Verts(ns, U, <<>>)} \cup
              {RSub(Val(U, b), Val(V, b)) : b \in Verts(ns, V, <<>>)})

SameUpTo(U, V, e) == /\ Len(U) = Len(V)
                     /\ \A i \in 1..Len(U) : RLeq(RVDist(U[i], V[i]), e)

(* The error below which the run stops; "inf" when the discount is zero.    *)
Threshold(delta, g) == RDiv(RMul(R(delta), RSub(1, g)), RMul(2, g))
=============================================================================

-------------------------------- MODULE Tools --------------------------------
(* What the tools of pomdp-tools compute from files of vectors, beliefs and *)
(* policy graphs.  A file of vectors is a sequence of [a |-> action,        *)
(* v |-> vector]; a policy graph is a sequence of [id, a, l], a link of -1  *)
(* standing for "-".  Numbers of vectors, beliefs and nodes start at 0.     *)
EXTENDS ValueIteration

Dots(W, b) == TLCEval([i \in 1..Len(W) |-> RDot(W[i].v, b)])

RECURSIVE MaxTo(_, _)
MaxTo(s, k) == IF k = 1 THEN s[1] ELSE RMax(s[k], MaxTo(s, k - 1))

(* Numbers i - 1 of the positions of s that satisfy P, in ascending order.  *)
RECURSIVE PickTo(_, _, _)
PickTo(s, P(_), k) == IF k = 0 THEN <<>>
                      ELSE IF P(s[k]) THEN Append(PickTo(s, P, k - 1), k - 1) ELSE PickTo(s, P, k - 1)
Pick(s, P(_)) == PickTo(s, P, Len(s))

-----------------------------------------------------------------------------
(* Sorting and purging.                                                     *)

Same(x, y, eps) == x.a = y.a /\ Len(x.v) = Len(y.v) /\ RLeq(RVDist(x.v, y.v), eps)

Count(W, x, eps) == Cardinality({i \in 1..Len(W) : Same(W[i], x, eps)})

Permutation(V, W, eps) == /\ Len(V) = Len(W)
                          /\ \A i \in 1..Len(V) : Count(V, V[i], eps) = Count(W, V[i], eps)

Within(W, V, eps) == \A i \in 1..Len(W) : \E j \in 1..Len(V) : Same(W[i], V[j], eps)

(* The vectors of V that rise above W by more than tol somewhere.           *)
Above(ns, V, W, tol) ==
  LET bs == TLCEval(Verts(ns, Vecs(W), <<>>))
  IN {i \in 1..Len(V) : \E b \in bs : RLt(RAdd(Val(Vecs(W), b), tol), RDot(V[i].v, b))}

(* The margin of a vector over the others is concave and linear on the      *)
(* pieces of the others' surface, so a vertex of that shows it.             *)
Needed(ns, W, i, margin) ==
  \/ Len(W) = 1
  \/ \E b \in Verts(ns, Others(Vecs(W), i), <<>>) : NeededAt(Vecs(W), i, b, margin)

-----------------------------------------------------------------------------
(* compare_alphas: for every vector of the first file the vectors of the    *)
(* second within eps, nearest first; the nearest in any case.               *)

RECURSIVE Insert(_, _, _)
Insert(s, k, x) == IF k = 0 THEN <<x>> \o s
                   ELSE IF RLeq(s[k].d, x.d) THEN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
                   ELSE Insert(s, k - 1, x)
RECURSIVE Ranked(_, _, _)
Ranked(v, W, k) ==
  IF k = 0 THEN <<>>
  ELSE LET s == Ranked(v, W, k - 1)
       IN Insert(s, Len(s), [j |-> k - 1, d |-> RVDist(v, W[k].v), a |-> W[k].a])

Comparison(x, W, eps) ==
  LET s == TLCEval(Ranked(x.v, W, Len(W)))
      near == {k \in 1..Len(s) : RLeq(s[k].d, eps)}
      n == Max(1, Cardinality(near))
  IN [a |-> x.a, none |-> RLt(eps, s[1].d), differs |-> s[1].a # x.a, list |-> SubSeq(s, 1, n)]

-----------------------------------------------------------------------------
(* map_beliefs: the best vectors at every belief, and where a vector is     *)
(* the only best one or one of several.                                     *)

BestAt(W, b) == LET ds == Dots(W, b)
                    m == MaxTo(ds, Len(ds))
                IN [v |-> m, best |-> Pick(ds, LAMBDA d : REq(d, m))]

Mapping(W, bs) ==
  LET bel == TLCEval([i \in 1..Len(bs) |-> TLCEval(BestAt(W, bs[i]))])
  IN [bel |-> bel,
      al |-> [j \in 1..Len(W) |->
               [uniq |-> Pick(bel, LAMBDA x : x.best = <<j - 1>>),
                multi |-> Pick(bel, LAMBDA x : Len(x.best) > 1 /\ \E k \in 1..Len(x.best) : x.best[k] = j - 1)]]]

(* belief_alpha_compare: the second value function minus the first.         *)
Difference(m1, m2) ==
  LET n == Len(m1.bel)
      d == TLCEval([i \in 1..n |-> RSub(m2.bel[i].v, m1.bel[i].v)])
      big == IF n = 0 THEN R(0) ELSE MaxTo([i \in 1..n |-> RAbs(d[i])], n)
  IN [d |-> d, diffs |-> Pick(d, LAMBDA x : ~REq(x, 0)),
      max |-> big, maxs |-> Pick(d, LAMBDA x : ~REq(x, 0) /\ REq(RAbs(x), big))]

-----------------------------------------------------------------------------
(* pg_relink: links into B become links to the nearest vectors of A (the    *)
(* first of them); a link that B has not got becomes "-".                   *)

Nearest(v, A) == LET d == TLCEval([j \in 1..Len(A) |-> RVDist(v, A[j].v)])
                 IN (CHOOSE j \in 1..Len(A) : /\ \A k \in 1..Len(A) : RLeq(d[j], d[k])
                                              /\ \A k \in 1..(j - 1) : RLt(d[j], d[k])) - 1

Relinked(A, B, pg) ==
  [i \in 1..Len(pg) |->
     [id |-> i - 1, a |-> pg[i].a,
      l |-> [z \in 1..Len(pg[i].l) |->
               IF pg[i].l[z] \in 0..(Len(B) - 1) THEN Nearest(B[pg[i].l[z] + 1].v, A) ELSE -1]]]

-----------------------------------------------------------------------------
(* pg_eval: the values x[i][s] of executing the policy graph forever from   *)
(* node i - 1 and state s solve a linear system.                            *)

Reward1(D, cost, a, s) == IF cost THEN RNeg(D.Q[a][s]) ELSE D.Q[a][s]

(* The right-hand side of the equation of node i and state s.               *)
OneStep(D, cost, pg, x, i, s) ==
  LET a == pg[i].a + 1
  IN RAdd(Reward1(D, cost, a, s),
          RSum([z \in 1..D.no |->
                  IF pg[i].l[z] = -1 THEN R(0) ELSE RDot(D.W[a][z][s], x[pg[i].l[z] + 1])]))

Residual(D, cost, pg, x) ==
  MaxOf(R(0), {RAbs(RSub(x[i][s], OneStep(D, cost, pg, x, i, s))) : i \in 1..Len(pg), s \in 1..D.ns})

(* The best node at a belief: least cost, or most reward.                   *)
BestNodeValue(cost, x, b) ==
  LET ds == TLCEval([i \in 1..Len(x) |-> IF cost THEN RNeg(RDot(x[i], b)) ELSE RDot(x[i], b)])
      m == MaxTo(ds, Len(ds))
  IN IF cost THEN RNeg(m) ELSE m
=============================================================================

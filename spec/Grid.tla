-------------------------------- MODULE Grid --------------------------------
(* Value iteration over a finite grid of beliefs: which grids may be made,  *)
(* and what one step of value iteration over a grid is.                     *)
EXTENDS ValueIteration

(* ------------------------------------------------------------- beliefs *)
\* probability of observation z, and the belief after it (D.PO: see Derive)
ZProb(D, b, a, z) == RDot(b, [s \in 1..D.ns |-> RSum(D.PO[a][z][s])])
After(D, b, a, z) ==
  LET p == ZProb(D, b, a, z)
  IN [t \in 1..D.ns |-> RDiv(RDot(b, [s \in 1..D.ns |-> D.PO[a][z][s][t]]), p)]

\* successors that are certain to count (possible), and that may count
Sure(D, b) == {x \in (1..D.na) \X (1..D.no) : RLeq("1e-6", ZProb(D, b, x[1], x[2]))}
May(D, b) == {x \in (1..D.na) \X (1..D.no) : RLeq("1e-12", ZProb(D, b, x[1], x[2]))}

NearTo(p, q, e) == RLeq(RVDist(p, q), e)

IsDist(b) == (\A s \in 1..Len(b) : RLeq("-1e-9", b[s])) /\ RLeq(RAbs(RSub(RSum(b), 1)), "1e-9")

(* ------------------------------------------------------------- the grid *)
Corner(n, c) == [s \in 1..n |-> IF s = c THEN R(1) ELSE R(0)]
Pair(n, c, d) == [s \in 1..n |-> IF s \in {c, d} THEN R("0.5") ELSE R(0)]

\* The states that action a can show observation z in
Class(M, a, z, e) == {t \in 1..M.ns : RLt(e, M.O[a][t][z])}
Clear(M, a, z, e) == Class(M, a, z, 0) = Class(M, a, z, e)     \* none that hardly ever shows it
ClassBelief(n, C) == [t \in 1..n |-> IF t \in C THEN RDiv(1, Cardinality(C)) ELSE R(0)]
UniformB(n) == [s \in 1..n |-> RDiv(1, n)]

FixedGrid(M, type) ==
  {Corner(M.ns, c) : c \in 1..M.ns} \cup
  (IF type = "pairwise" THEN {Pair(M.ns, x[1], x[2]) : x \in {y \in (1..M.ns) \X (1..M.ns) : y[1] < y[2]}} ELSE {})

\* Belief states a search starts from: those it must have, and those it may.
\* (A state showing an observation with a probability of no more than the
\* precision of the grid may be left out of the observation's class.)
Pairs(M) == (1..M.na) \X (1..M.no)
ClassRoots(M, xs, e) == {ClassBelief(M.ns, Class(M, x[1], x[2], e)) : x \in {y \in xs : Class(M, y[1], y[2], e) # {}}}
Roots(M, type, start, eps) ==
  IF type = "initial" THEN {RVec(start)}
  ELSE {UniformB(M.ns)} \cup ClassRoots(M, {y \in Pairs(M) : Clear(M, y[1], y[2], RMul("1.01", eps))}, 0)
MayRoots(M, type, start, eps) ==
  IF type = "initial" THEN {RVec(start)}
  ELSE {UniformB(M.ns)} \cup UNION {ClassRoots(M, Pairs(M), e) : e \in {R(0), RMul("0.99", eps), RMul("1.01", eps)}}

SLACK == "1e-8"
IsRoot(M, type, start, eps, p) == \E r \in MayRoots(M, type, start, eps) : NearTo(r, p, SLACK)
IsNext(D, grid, k, p) ==     \* a successor of one of the points before place k
  \E i \in 1..(k - 1) : \E x \in May(D, grid[i]) : NearTo(After(D, grid[i], x[1], x[2]), p, SLACK)

\* p may be the next point of the grid whose points so far are grid[1..k-1]
MayAppend(M, D, type, start, grid, k, eps) ==
  /\ IsDist(grid[k])
  /\ IF type \in {"simplex", "pairwise"}
     THEN \E r \in FixedGrid(M, type) : NearTo(r, grid[k], SLACK)
     ELSE IsRoot(M, type, start, eps, grid[k]) \/ IsNext(D, grid, k, grid[k])
  /\ \A i \in 1..(k - 1) : ~NearTo(grid[i], grid[k], RSub(eps, SLACK))

Has(grid, b, e) == \E i \in 1..Len(grid) : NearTo(grid[i], b, e)

\* The finished grid
GridDone(M, D, type, start, grid, limit, eps) ==
  LET e == RAdd(eps, SLACK) IN
  IF type \in {"simplex", "pairwise"}
  THEN \A r \in FixedGrid(M, type) : Has(grid, r, SLACK)
  ELSE /\ \A r \in Roots(M, type, start, eps) : Has(grid, r, e)
       /\ Len(grid) <= Max(limit, Cardinality(MayRoots(M, type, start, eps)))
       /\ Len(grid) < limit =>
            \A i \in 1..Len(grid) : \A x \in Sure(D, grid[i]) :
              Has(grid, After(D, grid[i], x[1], x[2]), e)

(* ------------------------------------------------------------ the backup *)
GridShort(D, G, W, grid, tol) ==
  {i \in 1..Len(grid) : RLt(RAdd(Val(Vecs(W), grid[i]), tol), Look(D, G, grid[i]))}

GridError(U, V, grid) ==
  MaxOf(R(0), {RAbs(RSub(Val(U, grid[i]), Val(V, grid[i]))) : i \in 1..Len(grid)})
=============================================================================

----------------------------- MODULE TraceTools -----------------------------
(* Recorded runs of pomdp-tools against Tools.tla, one state per run.       *)
EXTENDS Tools, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, done
vars == <<c, done>>

T == Trace[c]
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)

Al(al) == TLCEval([i \in 1..Len(al) |-> [a |-> al[i].a, v |-> RVec(al[i].v)]])
Ended == T.status = "0"

SortRun ==
  LET V == Al(T.in1)  W == Al(T.out)
  IN IF ~T.wrote THEN Bad("ended", "no output") ELSE
     /\ Clause("permutation", Permutation(V, W, "1e-12"), "")
     /\ Clause("order", Sorted(W), "")

PurgeRun ==
  LET V == Al(T.in1)  W == Al(T.out)
  IN IF ~T.wrote \/ Len(W) = 0 THEN Bad("ended", "no output") ELSE
     /\ Clause("new-vector", Within(W, V, "1e-12"), "")
     /\ Clause("order", Sorted(W), "")
     /\ LET ab == Above(T.ns, V, W, "1e-8") IN Clause("lost", ab = {}, ab)
     /\ LET un == {i \in 1..Len(W) : ~Needed(T.ns, W, i, "1e-11")} IN Clause("useless", un = {}, un)
     /\ Clause("counts", T.nin = Len(V) /\ T.nout = Len(W), <<T.nin, T.nout>>)

SameRanked(x, y) == /\ Len(x) = Len(y)
                    /\ \A k \in 1..Len(x) : x[k].j = y[k].j /\ x[k].a = y[k].a /\ REq(x[k].d, y[k].d)

CompareRun ==
  LET V == Al(T.in1)  W == Al(T.in2)
  IN /\ Clause("lines", Len(T.rep) = Len(V), Len(T.rep))
     /\ IF Len(T.rep) # Len(V) THEN TRUE
        ELSE \A i \in 1..Len(V) :
               LET want == Comparison(V[i], W, T.eps)  got == T.rep[i]
               IN /\ Clause("vector", got.i = i - 1 /\ got.a = want.a, i)
                  /\ Clause("none", got.none = want.none, i)
                  /\ Clause("differs", got.differs = want.differs, i)
                  /\ Clause("matches", SameRanked(got.list, want.list), <<i, want.list>>)

MapOk(rep, m, nb, na) ==
  /\ Clause("map-counts", rep.nb = nb /\ rep.na = na /\ Len(rep.bel) = nb /\ Len(rep.al) = na, <<rep.nb, rep.na>>)
  /\ IF Len(rep.bel) # nb \/ Len(rep.al) # na THEN TRUE
     ELSE /\ \A i \in 1..nb : Clause("best", /\ rep.bel[i].i = i - 1
                                             /\ rep.bel[i].best = m.bel[i].best
                                             /\ rep.bel[i].multi = (Len(m.bel[i].best) > 1)
                                             /\ REq(rep.bel[i].v, m.bel[i].v), <<i, m.bel[i].best>>)
          /\ \A j \in 1..na : Clause("where-best", /\ rep.al[j].i = j - 1
                                                   /\ rep.al[j].uniq = m.al[j].uniq
                                                   /\ rep.al[j].multi = m.al[j].multi, <<j, m.al[j]>>)

Bs == TLCEval([i \in 1..Len(T.beliefs) |-> RVec(T.beliefs[i])])

MapRun == MapOk(T.rep, Mapping(Al(T.in1), Bs), Len(T.beliefs), Len(T.in1))

ValuesRun ==
  LET m1 == Mapping(Al(T.in1), Bs)  m2 == Mapping(Al(T.in2), Bs)  df == Difference(m1, m2)
      n == Len(T.beliefs)
  IN /\ MapOk(T.rep1, m1, n, Len(T.in1))
     /\ MapOk(T.rep2, m2, n, Len(T.in2))
     /\ Clause("cmp-lines", Len(T.cmp) = n, Len(T.cmp))
     /\ IF Len(T.cmp) # n THEN TRUE
        ELSE \A i \in 1..n :
               Clause("cmp", /\ T.cmp[i].best1 = m1.bel[i].best /\ REq(T.cmp[i].v1, m1.bel[i].v)
                             /\ T.cmp[i].best2 = m2.bel[i].best /\ REq(T.cmp[i].v2, m2.bel[i].v)
                             /\ REq(T.cmp[i].d, df.d[i]) /\ T.cmp[i].nz = ~REq(df.d[i], 0), i)
     /\ Clause("summary", /\ T.sum.n = Len(df.diffs) /\ T.sum.diffs = df.diffs
                          /\ T.sum.nmax = Len(df.maxs) /\ T.sum.maxs = df.maxs
                          /\ (Len(df.diffs) > 0 => REq(T.sum.max, df.max)), df)

RelinkRun ==
  IF Len(T.pg) # Len(T.in1) THEN Clause("relink-mismatch", ~T.wrote, "sizes do not match")
  ELSE /\ Clause("relink", T.wrote /\ T.rep = Relinked(Al(T.in1), Al(T.in2), T.pg), "")

PgEvalRun ==
  LET D == Derive(T.model)
      cost == T.model.cost
      n == Len(T.pg)
      x == TLCEval([i \in 1..Len(T.sol) |-> RVec(T.sol[i])])
      norm == RSum([a \in 1..D.na |-> RSum([s \in 1..D.ns |-> RAbs(D.Q[a][s])])])
      tol == RAdd("0.0102", RMul(RMul("1e-5", n), norm))
      best == BestNodeValue(cost, x, RVec(T.start))
      shaped == Len(x) = n /\ \A i \in 1..Len(x) : Len(x[i]) = D.ns
  IN IF ~T.solved THEN Bad("unsolved", "")
     ELSE IF ~shaped THEN Bad("shape", Len(x))
     ELSE /\ LET r == Residual(D, cost, T.pg, x) IN Clause("values", RLeq(r, tol), <<RStr(r), RStr(tol)>>)
          /\ Clause("start-value", RLeq(RAbs(RSub(T.val, best)), "0.0102"), <<T.val, RStr(best)>>)
          /\ IF T.node \in 0..(n - 1)
             THEN Clause("start-node", RLeq(RAbs(RSub(RDot(x[T.node + 1], RVec(T.start)), best)), "0.0204"), T.node)
             ELSE Bad("start-node", T.node)

Check ==
  /\ ~done
  /\ IF ~Ended THEN Bad("ended", T.status)
     ELSE CASE T.kind = "sort" -> SortRun
            [] T.kind = "purge" -> PurgeRun
            [] T.kind = "compare" -> CompareRun
            [] T.kind = "map" -> MapRun
            [] T.kind = "values" -> ValuesRun
            [] T.kind = "relink" -> RelinkRun
            [] T.kind = "pgeval" -> PgEvalRun
            [] T.kind = "unreadable" -> Clause("unreadable", ~T.wrote, "output from an unreadable file")
  /\ PrintT("@@" \o ToJson([done |-> c]))
  /\ done' = TRUE
  /\ UNCHANGED c

Init == c \in 1..Len(Trace) /\ done = FALSE
Next == Check
Spec == Init /\ [][Next]_vars

AllConsumed == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================

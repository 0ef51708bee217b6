------------------------------- MODULE Report -------------------------------
(* What pomdp-solve reports: the times and the statistics summary.          *)
(* All numbers are texts as printed; times have two decimals.               *)
EXTENDS Rat, TLC, Integers, Sequences, FiniteSets

Half == "0.0051"      \* how far a printed time is from the time
Near(a, b, n) == RLeq(RAbs(RSub(a, b)), RMul(n, Half))

(* "h hrs., m mins, s secs. (= t secs)"                                     *)
TimeOk(x) ==
  /\ Near(RAdd(RAdd(RMul(3600, x.h), RMul(60, x.m)), x.s), x.t, 2)
  /\ RLeq(0, x.h) /\ RLeq(0, x.m) /\ RLeq(0, x.s)
  /\ RLeq(x.m, 59) /\ RLeq(x.s, 60)

(* The three lines for user, system and both.                               *)
TimesOk(ts) ==
  /\ Len(ts) = 3
  /\ \A i \in 1..3 : TimeOk(ts[i])
  /\ Near(RAdd(ts[1].t, ts[2].t), ts[3].t, 3)

(* The epoch lines: numbered from 1, with the time each took and the time   *)
(* since the start.                                                         *)
EpochsOk(lines, total) ==
  /\ \A i \in 1..Len(lines) : lines[i].n = ToString(i)
  /\ \A i \in 1..Len(lines) :
       LET before == IF i = 1 THEN 0 ELSE lines[i - 1].tot
       IN RLeq(RAdd(before, lines[i].t), RAdd(lines[i].tot, RMul(3, Half)))
  /\ Len(lines) = 0 \/ RLeq(lines[Len(lines)].tot, RAdd(total, RMul(2, Half)))

(* The summary has a row per epoch that repeats what its line said, and     *)
(* totals that are the sums of the columns.                                 *)
RowsOk(rows, lines) ==
  /\ Len(rows) = Len(lines)
  /\ \A i \in 1..Len(rows) :
       /\ rows[i].n = lines[i].n /\ rows[i].k = lines[i].k
       /\ rows[i].err = lines[i].err /\ rows[i].t = lines[i].t
TotalsOk(rows, totals, contexts) ==
  LET n == Len(rows)
  IN /\ Near(RSum([i \in 1..n |-> rows[i].t]), totals.t, n + 1)
     /\ Len(totals.c) = Len(contexts)
     /\ \A i \in 1..n : Len(rows[i].c) = Len(contexts)
     /\ \A j \in 1..Len(contexts) :
          /\ Near(RSum([i \in 1..n |-> rows[i].c[j]]), totals.c[j], n + 1)
          /\ Near(contexts[j], totals.c[j], 2)
ContextsOk(contexts, all, total) ==
  /\ Near(RSum(contexts), all, Len(contexts) + 1)
  /\ RLeq(all, RAdd(total, RMul(Len(contexts) + 2, Half)))
(* The precision shown for an epoch is what the pruning of the union of     *)
(* all actions' vectors lost, if it was approximate (peps: its limit).      *)
PrecisionOk(rows, variation, peps) ==
  variation = "normal" =>
  \A i \in 1..Len(rows) :
    IF peps = "none" THEN rows[i].eps = "N/A"
    ELSE rows[i].eps # "N/A" /\ RLeq(0, rows[i].eps) /\ RLeq(rows[i].eps, RAdd(RMul("1.006", peps), "1e-7"))
=============================================================================

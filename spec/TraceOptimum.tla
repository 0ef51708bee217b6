---------------------------- MODULE TraceOptimum ----------------------------
(* Runs for one model that ended by their own stopping criterion, with      *)
(* every variation of value iteration: each ends near the optimal value     *)
(* function of the infinite horizon.  One behaviour per model, one step     *)
(* per run.                                                                 *)
EXTENDS Tools, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, D
vars == <<c, l, D>>

T == Trace[c]
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, run |-> T.runs[l + 1].cmd, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)
Parse(al) == TLCEval([i \in 1..Len(al) |-> [a |-> al[i].a, v |-> RVec(al[i].v)]])

(* The last change was at most Threshold everywhere, upwards: another       *)
(* backup adds at most the discount times that, so that the optimum is      *)
(* nowhere more than delta/2 above.                               *)
Slack == RAdd(RMul(D.g, Threshold(T.delta, D.g)), T.tol)
TooLow(W) == Short(D, Project(D, Vecs(W)), W, Verts(D.ns, Vecs(W), <<>>), Slack)

(* The criteria that look at the change in both directions, and the         *)
(* one-sided one of values that only grow, also bound how far the result    *)
(* can be above the optimum: two such results differ by at most delta.      *)
Apart == RAdd(T.delta, RDiv(RMul(4, T.tol), RSub(1, D.g)))

(* The speedup between two epochs only ever raises the value function: the  *)
(* backup of an epoch is nowhere below the backup of the last epoch's.      *)
Lost(W, U) ==
  IF ShapeOk(D, W) /\ ShapeOk(D, U) THEN Short(D, Project(D, Vecs(W)), U, Verts(D.ns, Vecs(U), <<>>), T.tol)
  ELSE {"shape"}

(* From a start that cannot be above the optimal value function - one       *)
(* constant that a backup cannot lower - nothing on the way is above it.    *)
(* The result is at most delta/2 below it (Slack).                          *)
StartsBelow == /\ Len(T.init) = 1
               /\ LET v == RVec(T.init[1].v)
                  IN /\ \A i \in 2..D.ns : REq(v[i], v[1])
                     /\ \A a \in 1..D.na, i \in 1..D.ns : RLeq(RMul(v[1], RSub(1, D.g)), D.Q[a][i])
Reach == RAdd(RDiv(T.delta, 2), RDiv(RMul(4, T.tol), RSub(1, D.g)))
Over(U, W) == IF ShapeOk(D, U) THEN Above(D.ns, U, W, Reach) ELSE {0}

Run ==
  /\ l < Len(T.runs)
  /\ LET r == T.runs[l + 1]
         W == Parse(r.al)
     IN IF r.status # "0" THEN Bad("ended", r.status)
        ELSE IF ~ShapeOk(D, W) THEN Bad("shape", "")
        ELSE /\ LET s == TooLow(W) IN Clause("not-optimal", s = {}, CHOOSE b \in s : TRUE)
             /\ \A k \in 2..Len(r.ep) : Clause("lost", Lost(Parse(r.ep[k - 1]), Parse(r.ep[k])) = {}, k)
             /\ IF ~StartsBelow THEN TRUE
                ELSE \A k \in 1..Len(r.ep) : Clause("overshoot", Over(Parse(r.ep[k]), W) = {}, k)
             /\ \A k \in 1..l :
                  IF T.runs[k].status # "0" \/ r.crit = "weak" \/ T.runs[k].crit = "weak" THEN TRUE
                  ELSE LET U == Parse(T.runs[k].al)
                       IN Clause("apart", ShapeOk(D, U) => Above(D.ns, U, W, Apart) = {} /\ Above(D.ns, W, U, Apart) = {},
                                 T.runs[k].cmd)
  /\ l' = l + 1
  /\ UNCHANGED <<c, D>>

Finish ==
  /\ l = Len(T.runs)
  /\ PrintT("@@" \o ToJson([done |-> c]))
  /\ l' = l + 1
  /\ UNCHANGED <<c, D>>

Init == /\ c \in 1..Len(Trace)
        /\ l = 0
        /\ D = Derive(Trace[c].model)
Next == Run \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE Len(Trace[k].runs) + 2 + Steps(k - 1)
AllConsumed == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================

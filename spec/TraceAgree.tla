----------------------------- MODULE TraceAgree -----------------------------
(* Runs of one model with different methods and variations: they all end    *)
(* with the same set of vectors (the first run is the reference).  A vector *)
(* that the other set lacks is excused unless it stands out by more than    *)
(* the tolerance at the belief given with it.                               *)
EXTENDS ValueIteration, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, Ref
vars == <<c, l, Ref>>

T == Trace[c]
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, run |-> T.runs[l + 1].cmd, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)

Vs(k) == TLCEval([i \in 1..Len(T.runs[k].al) |-> RVec(T.runs[k].al[i].v)])

Init == /\ c \in 1..Len(Trace)
        /\ l = 0
        /\ Ref = Vs(1)

(* Vectors of U that are not in W and stand out in U.                       *)
Missing(U, W, hints) ==
  {i \in 1..Len(U) :
     /\ ~\E j \in 1..Len(W) : RLeq(RVDist(U[i], W[j]), T.tol)
     /\ Len(hints[i]) > 0
     /\ NeededAt(U, i, RVec(hints[i]), T.tol)}

Compare ==
  /\ l < Len(T.runs)
  /\ LET r == T.runs[l + 1]
         U == Vs(l + 1)
         m1 == Missing(U, Ref, r.pb)
         m2 == Missing(Ref, U, T.runs[1].pb)
     IN /\ Clause("ended", r.status = "0", r.status)
        /\ IF r.status # "0" \/ T.runs[1].status # "0" THEN TRUE
           ELSE /\ Clause("extra", m1 = {}, m1)
                /\ Clause("missing", m2 = {}, m2)
  /\ l' = l + 1
  /\ UNCHANGED <<c, Ref>>

Finish == /\ l = Len(T.runs)
          /\ PrintT("@@" \o ToJson([done |-> c]))
          /\ l' = l + 1
          /\ UNCHANGED <<c, Ref>>

Next == Compare \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE Len(Trace[k].runs) + 2 + Steps(k - 1)
AllConsumed == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================

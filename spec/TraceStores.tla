----------------------------- MODULE TraceStores -----------------------------
(* Recorded operations on the program's own stores, one state each.  ok     *)
(* says whether each row of the sparse form has its columns in order and    *)
(* once each, and the closed form of the matrix agrees with the open one.   *)
EXTENDS Stores, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, at |-> ToString(at)]))

Check ==
  LET T == Trace[c]
      y == Step(T.pre, T.op)
  IN /\ IF T.ok = "ok" THEN TRUE ELSE Bad("structure", T.ok)
     /\ IF T.ok # "ok" THEN TRUE
        ELSE /\ IF y.s = T.post THEN TRUE ELSE Bad(T.op.k, <<"state", T.pre, "operation", T.op, "gave", T.post>>)
             /\ IF y.r = T.r THEN TRUE ELSE Bad(T.op.k, <<"state", T.pre, "operation", T.op, "returned", T.r>>)
     /\ PrintT("@@" \o ToJson([done |-> c]))

Init == c \in 1..Len(Trace)
Next == c > 0 /\ Check /\ c' = -c
Spec == Init /\ [][Next]_c
AllConsumed == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================

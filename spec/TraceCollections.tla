-------------------------- MODULE TraceCollections --------------------------
(* Recorded operations on the program's own collections, one state each.    *)
EXTENDS Collections, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, at |-> ToString(at)]))

(* Two lists, three vectors of a domain where ~e holds.                     *)
Check ==
  LET T == Trace[c]
      S == T.pre
      ok == T.ok = "ok"
  IN /\ IF T.ok = "ok" THEN TRUE ELSE Bad("structure", T.ok)
     /\ IF T.ok # "ok" \/ Allowed(S, T.op, T.post, T.r) THEN TRUE
        ELSE Bad(T.op.k, <<"state", S, "operation", T.op, "gave", T.post, T.r>>)
     /\ PrintT("@@" \o ToJson([done |-> c]))

Init == c \in 1..Len(Trace)
Next == c > 0 /\ Check /\ c' = -c
Spec == Init /\ [][Next]_c
AllConsumed == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================

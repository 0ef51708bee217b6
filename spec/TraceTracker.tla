---------------------------- MODULE TraceTracker ----------------------------
(* Recorded sessions of the belief tracker against Tracker.tla: one step    *)
(* per input line.  A shown belief is rounded to six digits.                *)
EXTENDS Tracker, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, k, D, b, ended
vars == <<c, l, k, D, b, ended>>

T == Trace[c]
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, line |-> l, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)

(* Output line i shows belief x.                                            *)
Shows(i, x) == /\ i <= Len(T.out)
               /\ Len(T.out[i]) = D.ns
               /\ RLeq(RVDist(x, T.out[i]), "6e-7")
Empty(i) == i <= Len(T.out) /\ T.out[i] = <<>>

Init == /\ c \in 1..Len(Trace)
        /\ l = 0 /\ k = 1 /\ ended = FALSE
        /\ D = Derive(Trace[c].model)
        /\ b = RVec(Trace[c].start)

Start == /\ l = 0
         /\ Clause("start", Shows(1, b), IF T.out = <<>> THEN "no output" ELSE T.out[1])
         /\ l' = 1 /\ k' = 2
         /\ UNCHANGED <<c, D, b, ended>>

Answer ==
  /\ l > 0 /\ l <= Len(T.lines) /\ ~ended
  /\ LET ln == Line(T.lines[l])
         nb == IF Good(D, ln)
               THEN IF Shows(k, Zero(D)) /\ Unlikely(D, b, ln.a + 1, ln.o + 1) THEN Zero(D)
                    ELSE TLCEval(Follow(D, b, ln.a + 1, ln.o + 1))
               ELSE b
     IN IF IsExit(T.lines[l])
        THEN ended' = TRUE /\ UNCHANGED <<k, b>>
        ELSE /\ IF Good(D, ln)
                THEN Clause("belief", Shows(k, nb), <<ln, nb>>) /\ k' = k + 1
                ELSE Clause("input-error", Empty(k) /\ Shows(k + 1, nb), ln) /\ k' = k + 2
             /\ b' = nb
             /\ UNCHANGED ended
  /\ l' = l + 1
  /\ UNCHANGED <<c, D>>

Finish ==
  /\ l > 0
  /\ ~(l <= Len(T.lines) /\ ~ended)
  /\ Clause("end", k = Len(T.out) + 1 /\ T.status = "0", <<k, Len(T.out), T.status>>)
  /\ Clause("prompt", T.prompt, "the answer did not come before the next line")
  /\ PrintT("@@" \o ToJson([done |-> c]))
  /\ l' = -1
  /\ UNCHANGED <<c, k, D, b, ended>>

Next == Start \/ Answer \/ Finish
Spec == Init /\ [][Next]_vars

AllConsumed == TLCGet("stats").distinct >= 3 * Len(Trace)
=============================================================================

---------------------------- MODULE TraceOptions ----------------------------
(* Recorded starts of the programs against Options.tla, one state per run.  *)
EXTENDS Options, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, done
vars == <<c, done>>

T == Trace[c]
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)

(* Printed with %f.                                                         *)
Close(x, y) == IF RLeq(RAbs(x), "1e6") THEN RLeq(RAbs(RSub(x, y)), "6e-7")
               ELSE RLeq(RAbs(RSub(x, y)), RMul("1e-15", RAbs(x)))

Shown(o, val) ==
  LET v == val[o.n]
      w == T.shown[o.n]
  IN IF o.n \notin DOMAIN T.shown THEN FALSE
     ELSE CASE o.t = "int" -> IsInt(w) /\ REq(Plain(v), w)
            [] o.t = "double" ->
                 IsNumber(w) /\ Close(IF o.n = "lp_epsilon" THEN RMin(Plain(v), Plain(val["epsilon"])) ELSE Plain(v), w)
            [] OTHER -> w = IF o.n = "o" THEN Prefix(v, val["pomdp"], T.pid) ELSE v

Run == LET r == TLCEval(Outcome(IF T.prog = "solve" THEN Solve ELSE Tools, T.args, T.config, T.cfgread))
       IN IF r.ok
          THEN /\ Clause("rejected", T.ran, T.status)
               /\ IF T.ran /\ T.prog = "solve"
                  THEN \A o \in Solve : Clause("effective", Shown(o, r.val), <<o.n, r.val[o.n]>>)
                  ELSE TRUE
          ELSE Clause("accepted", ~T.ran /\ T.status = "1" /\ ~T.wrote, T.status)

Check == /\ ~done
         /\ Run
         /\ PrintT("@@" \o ToJson([done |-> c]))
         /\ done' = TRUE
         /\ UNCHANGED c

Init == c \in 1..Len(Trace) /\ done = FALSE
Next == Check
Spec == Init /\ [][Next]_vars

AllConsumed == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================

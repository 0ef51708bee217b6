---------------------------- MODULE TraceReport ----------------------------
(* Recorded runs of pomdp-solve, one behaviour per group of runs of one     *)
(* model: what a run gives is a function of the options that matter.        *)
(* known: the result first seen for each choice of them, told: the report   *)
(* first seen for each command.                                             *)
EXTENDS Report, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, known, told
vars == <<c, l, known, told>>

T == Trace[c]
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, run |-> T.runs[l + 1].cmd, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)

With(f, k, v) == IF k \in DOMAIN f THEN f ELSE (k :> v) @@ f
Range(s) == {s[i] : i \in 1..Len(s)}

Run ==
  /\ l < Len(T.runs)
  /\ LET r == T.runs[l + 1]
         out == r.report
     IN IF r.status # "0"
        THEN /\ Bad("ended", r.status)
             /\ UNCHANGED <<known, told>>
        ELSE /\ known' = With(known, r.key, r.result)
             /\ told' = With(told, r.cmdkey, out.text)
             /\ IF r.key \in DOMAIN known
                THEN Clause("result", known[r.key] = r.result, "")
                ELSE TRUE
             /\ IF r.cmdkey \in DOMAIN told
                THEN Clause("report", told[r.cmdkey] = out.text, "")
                ELSE TRUE
             /\ Clause("files", Range(r.files) = Range(r.want), r.files)
             /\ Clause("stdout", r.tofile => r.stdout = "", r.stdout)
             /\ IF ~out.ok THEN Bad("unreadable", out.why)
                ELSE /\ Clause("times", TimesOk(out.times), out.times)
                     /\ Clause("epochs", EpochsOk(out.lines, out.times[3].t), out.lines)
                     /\ Clause("summary-asked", out.summary = r.summary, "")
                     /\ IF ~out.summary THEN TRUE
                        ELSE /\ Clause("rows", RowsOk(out.rows, out.lines), <<out.rows, out.lines>>)
                             /\ Clause("totals", TotalsOk(out.rows, out.totals, out.contexts), out.totals)
                             /\ Clause("contexts", ContextsOk(out.contexts, out.all, out.times[3].t), out.contexts)
                             /\ Clause("precision", PrecisionOk(out.rows, r.variation, r.peps), out.rows)
  /\ l' = l + 1
  /\ UNCHANGED c

Finish ==
  /\ l = Len(T.runs)
  /\ PrintT("@@" \o ToJson([done |-> c]))
  /\ l' = l + 1
  /\ UNCHANGED <<c, known, told>>

Init == /\ c \in 1..Len(Trace)
        /\ l = 0
        /\ known = <<>>
        /\ told = <<>>
Next == Run \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE Len(Trace[k].runs) + 2 + Steps(k - 1)
AllConsumed == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================

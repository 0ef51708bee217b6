------------------------------ MODULE TraceRun ------------------------------
(* What real runs left behind when they were killed, interrupted or ran out *)
(* of time at one point, against the properties of Run.tla.                 *)
EXTENDS Sequences, TLC, Json, IOUtils, Naturals

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, done
Run == INSTANCE Run WITH H <- 0, SaveAll <- TRUE, Pen <- FALSE, InPlace <- FALSE, pc <- 0, n <- 0, reported <- 0,
                         disk <- 0, int <- 0, flag <- 0
T == Trace[c]
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)

Init == c \in 1..Len(Trace) /\ done = FALSE

File(x) == [of |-> x.of, ok |-> x.ok]
Disk == [f \in {"backup", "alpha", "pg", "new"} |-> File(T.files[f])]

Left == /\ Clause("recoverable", Run!RecoverableIn(Disk, T.reported), <<T.reported, T.files>>)
        /\ Clause("each", T.all => \A k \in 1..T.reported : k <= Len(T.each) /\ File(T.each[k]) = Run!Full(k),
                  <<T.reported, T.each>>)
Check ==
  CASE T.kind = "killed" -> Left
    [] T.kind = "interrupted" ->
         IF T.early /\ T.status # "0" THEN TRUE     \* before the program minds interrupts
         ELSE /\ Clause("ended", T.status = "0" /\ T.solution, T.status)
              /\ Clause("prompt", Run!InterruptEnds(T.before, T.reported), <<T.before, T.reported>>)
              /\ Clause("final", Run!EndedWith(Disk, T.reported), <<T.reported, T.files>>)
              /\ Clause("each", T.all => \A k \in 1..T.reported : k <= Len(T.each) /\ File(T.each[k]) = Run!Full(k),
                        <<T.reported, T.each>>)
              /\ Clause("penultimate", T.penw /\ T.reported > 1 => File(T.prev) = Run!Full(T.reported - 1), T.prev)
    [] T.kind = "timeout" /\ T.early /\ T.status # "0" -> TRUE
    [] T.kind = "timeout" ->
         /\ Clause("time-limit", /\ T.message /\ T.status = "0" /\ T.reported = T.before
                                 /\ T.solution = T.solbefore, T.status)
         /\ Left
    [] T.kind = "timed" ->     \* a real time limit on a run that would take much longer
         /\ Clause("time-limit", T.message /\ T.status = "0" /\ ~T.solution, <<T.status, T.seconds>>)
         /\ Clause("time", T.seconds >= 1000 * T.limit - 100 /\ T.seconds <= 1000 * T.limit + 900, T.seconds)   \* ms
         /\ Left

Next == /\ ~done /\ Check
        /\ PrintT("@@" \o ToJson([done |-> c]))
        /\ done' = TRUE /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, done>>
AllConsumed == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================

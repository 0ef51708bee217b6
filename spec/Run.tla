-------------------------------- MODULE Run --------------------------------
(* The run of the solver as its surroundings see it: what it reports, what  *)
(* it leaves on the disk, and what interrupts, the time limit and being     *)
(* killed do to it.  The value functions themselves are those of            *)
(* ValueIteration.tla; here a file only says of which epoch it is and       *)
(* whether it is complete.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS H,        \* epochs of an undisturbed run
          SaveAll,  \* -save_all
          Pen,      \* -save_penultimate
          InPlace   \* the backup file is overwritten in place (a mistake)

None == [of |-> -1, ok |-> FALSE]
Part(k) == [of |-> k, ok |-> FALSE]
Full(k) == [of |-> k, ok |-> TRUE]

EachName(k) == "alpha" \o ToString(k)
Names == {"backup", "new", "alpha", "pg", "prev"} \cup {EachName(k) : k \in 1..H}

VARIABLES pc,       \* the step that comes next
          n,        \* the value function at hand is that of epoch n
          reported, \* epochs reported
          disk,
          int,      \* -1, or the epochs reported when the interrupt came
          flag      \* the interrupt has been noticed (gInterrupt)
vars == <<pc, n, reported, disk, int, flag>>

Init == /\ pc = "loop" /\ n = 0 /\ reported = 0
        /\ disk = [f \in Names |-> None]
        /\ int = -1 /\ flag = FALSE

Put(f, x) == disk' = [disk EXCEPT ![f] = x]
Go(p) == pc' = p

Loop == /\ pc = "loop"
        /\ Go(IF flag \/ n = H THEN "alpha" ELSE IF Pen /\ n > 0 THEN "prev" ELSE "solve")
        /\ UNCHANGED <<n, reported, disk>>
Prev == /\ pc = "prev" /\ Put("prev", Part(n)) /\ Go("prev2") /\ UNCHANGED <<n, reported>>
Prev2 == /\ pc = "prev2" /\ Put("prev", Full(n)) /\ Go("solve") /\ UNCHANGED <<n, reported>>
Solve == /\ pc = "solve" /\ n' = n + 1 /\ Go(IF SaveAll THEN "each" ELSE "report")
         /\ UNCHANGED <<reported, disk>>
Each == /\ pc = "each" /\ Put(EachName(n), Part(n)) /\ Go("each2") /\ UNCHANGED <<n, reported>>
Each2 == /\ pc = "each2" /\ Put(EachName(n), Full(n)) /\ Go("report") /\ UNCHANGED <<n, reported>>
Report == /\ pc = "report" /\ reported' = n /\ Go("save") /\ UNCHANGED <<n, disk>>
Save == /\ pc = "save" /\ Put(IF InPlace THEN "backup" ELSE "new", Part(n)) /\ Go("save2")
        /\ UNCHANGED <<n, reported>>
Save2 == /\ pc = "save2" /\ Put(IF InPlace THEN "backup" ELSE "new", Full(n))
         /\ Go(IF InPlace THEN "loop" ELSE "rename") /\ UNCHANGED <<n, reported>>
Rename == /\ pc = "rename" /\ disk' = [disk EXCEPT !["backup"] = disk["new"], !["new"] = None]
          /\ Go("loop") /\ UNCHANGED <<n, reported>>
Alpha == /\ pc = "alpha" /\ Put("alpha", Part(n)) /\ Go("alpha2") /\ UNCHANGED <<n, reported>>
Alpha2 == /\ pc = "alpha2" /\ Put("alpha", Full(n)) /\ Go("pg") /\ UNCHANGED <<n, reported>>
Pg == /\ pc = "pg" /\ Put("pg", Part(n)) /\ Go("pg2") /\ UNCHANGED <<n, reported>>
Pg2 == /\ pc = "pg2" /\ Put("pg", Full(n)) /\ Go("unlink") /\ UNCHANGED <<n, reported>>
Unlink == /\ pc = "unlink" /\ Put("backup", None) /\ Go("ended") /\ UNCHANGED <<n, reported>>

Program == /\ \/ Loop \/ Prev \/ Prev2 \/ Solve \/ Each \/ Each2 \/ Report \/ Save \/ Save2 \/ Rename
              \/ Alpha \/ Alpha2 \/ Pg \/ Pg2 \/ Unlink
           /\ UNCHANGED <<int, flag>>

Halted == {"ended", "killed", "timeout"}
Interrupt == /\ pc \notin Halted /\ ~flag
             /\ flag' = TRUE /\ int' = reported
             /\ UNCHANGED <<pc, n, reported, disk>>
\* Both end the program at once; buffered output may or may not reach the disk.
Halt(how) == /\ pc \notin Halted
             /\ pc' = how
             /\ UNCHANGED <<n, reported, disk, int, flag>>
Next == Program \/ Interrupt \/ Halt("killed") \/ Halt("timeout")
Spec == Init /\ [][Next]_vars /\ WF_vars(Program)

(* ------------------------------------------------------------ properties *)
(* "files" maps the names to what is on the disk.                           *)
RecoverableIn(files, rep) ==
  rep >= 2 => \E f \in {"backup", "alpha"} : files[f].ok /\ files[f].of \in {rep - 1, rep}
Recoverable == RecoverableIn(disk, reported)
EachSaved == SaveAll => \A k \in 1..reported : disk[EachName(k)] = Full(k)
EndedWith(files, k) == /\ files["alpha"] = Full(k) /\ files["pg"] = Full(k)
                       /\ files["backup"] = None /\ files["new"] = None
CleanEnd == pc = "ended" => /\ EndedWith(disk, n) /\ n = reported
                            /\ (int = -1 => n = H)
                            /\ (Pen /\ n > 1 => disk["prev"] = Full(n - 1))
(* An interrupted run ends with the epoch in progress.                      *)
InterruptEnds(at, k) == at <= k /\ k <= at + 1
Prompt == int # -1 => InterruptEnds(int, n)
Ends == int # -1 ~> pc \in Halted
=============================================================================

----------------------------- MODULE Continue -------------------------------
(* A run of value iteration that is cut, at its horizon, by an interrupt or *)
(* by being killed, and continued by another run that starts from the value *)
(* function it left (-terminal_values).  Whatever the step from one value   *)
(* function to the next is, and whichever pairs of them meet the criterion  *)
(* to stop, the whole comes to what one run without cuts comes to.          *)
(* Value functions are numbers here.                                        *)
EXTENDS Integers, Sequences

CONSTANTS N, H

Values == 0..N

VARIABLES step, meets,      \* the model: one epoch, and when to stop
          v, e,             \* the value function now and the epochs so far
          runs,             \* epochs of the runs so far, the present one last
          done
vars == <<step, meets, v, e, runs, done>>

Init == /\ step \in [Values -> Values]
        /\ meets \in SUBSET (Values \X Values)
        /\ v = 0 /\ e = 0 /\ runs = <<0>> /\ done = FALSE

(* An epoch; the whole is to have H epochs at most.                         *)
Epoch == /\ ~done /\ e < H
         /\ v' = step[v]
         /\ e' = e + 1
         /\ runs' = [runs EXCEPT ![Len(runs)] = @ + 1]
         /\ done' = (<<v, step[v]>> \in meets \/ e + 1 = H)
         /\ UNCHANGED <<step, meets>>

(* The run is cut and another starts from the file it left.                 *)
Cut == /\ ~done /\ runs[Len(runs)] > 0
       /\ runs' = Append(runs, 0)
       /\ UNCHANGED <<step, meets, v, e, done>>

Next == Epoch \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Epoch)

-----------------------------------------------------------------------------
RECURSIVE After(_), Sum(_, _)
After(k) == IF k = 0 THEN 0 ELSE step[After(k - 1)]
Sum(s, k) == IF k = 0 THEN 0 ELSE s[k] + Sum(s, k - 1)
Meets(k) == <<After(k - 1), After(k)>> \in meets
Total == CHOOSE k \in 1..H : /\ (k = H \/ Meets(k))
                             /\ \A i \in 1..(k - 1) : ~Meets(i)

(* Epoch k of a run that continues after j epochs is epoch j + k.           *)
Same == /\ v = After(e)
        /\ e = Sum(runs, Len(runs))
        /\ done => e = Total
Ends == <>done
=============================================================================

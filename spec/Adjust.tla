------------------------------- MODULE Adjust -------------------------------
(* The adjustable_epsilon variation of value iteration: the precision of    *)
(* the solution starts coarse and is divided by a factor whenever the       *)
(* sizes of the last few value functions hardly differ.                     *)
(* sched: start, end, factor (rationals), len, delta (numbers).             *)
EXTENDS ValueIteration

Window(sizes, n) == {sizes[i] : i \in (Len(sizes) - n + 1)..Len(sizes)}
Spread(S) == (CHOOSE x \in S : \A y \in S : y <= x) - (CHOOSE x \in S : \A y \in S : x <= y)

Refines(sched, eps, sizes) ==
  /\ RLt(sched.end, eps)
  /\ Len(sizes) >= sched.len
  /\ Spread(Window(sizes, sched.len)) <= sched.delta

After(sched, eps, sizes) == IF Refines(sched, eps, sizes) THEN RDiv(eps, sched.factor) ELSE eps
=============================================================================

------------------------------- MODULE Stores -------------------------------
(* Where the program keeps what it was given: sparse matrices (transition   *)
(* and observation probabilities, rewards), tables from option names to     *)
(* values, and growing lists of indices.                                    *)
(*                                                                          *)
(* A state is [m: rows of entries, full, as a dense matrix; keys, vals: the *)
(* table in the order of first mention; cap: its capacity; x: the indices]. *)
EXTENDS Integers, Sequences

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
At(S, k) == {i \in DOMAIN S.keys : S.keys[i] = k}
NoRow(m) == [i \in DOMAIN m |-> [j \in DOMAIN m[1] |-> 0]]

Step(S, o) ==
  LET at == At(S, o.key)
      i == CHOOSE i \in at : TRUE
      Is(s, r) == [s |-> s, r |-> r]
  IN CASE o.k = "set" -> Is([S EXCEPT !.m[o.i][o.j] = o.x], 0)
       [] o.k = "accumulate" -> Is([S EXCEPT !.m[o.i][o.j] = @ + o.x], 0)
       [] o.k = "rowsum" -> Is(S, Sum(S.m[o.i]))
       [] o.k = "fresh" -> Is([S EXCEPT !.m = NoRow(S.m)], 0)
       [] o.k = "put" -> IF at # {} THEN Is([S EXCEPT !.vals[i] = o.val], 0)
                         ELSE IF Len(S.keys) >= S.cap THEN Is(S, -1)
                         ELSE Is([S EXCEPT !.keys = Append(@, o.key), !.vals = Append(@, o.val)], 1)
       [] o.k = "get" -> Is(S, IF at = {} THEN "" ELSE S.vals[i])
       [] o.k = "entries" -> Is(S, Len(S.keys))
       [] o.k = "index" -> Is([S EXCEPT !.x = Append(@, o.x)], 0)
       [] o.k = "indices" -> Is(S, Len(S.x))
=============================================================================

------------------------------ MODULE Tracker ------------------------------
(* The belief tracker (pomdp-tools -tool update_beliefs): it shows the      *)
(* start belief, then answers every input line "action observation" with    *)
(* the next belief; a line that is nothing of the kind is answered with [], *)
(* and the belief stays as it was and is shown again.  After an observation *)
(* that cannot occur the belief is all zeroes for good.  The line "exit"    *)
(* and the end of the input end it.  A line is a sequence of characters.    *)
EXTENDS Pomdp

Space == {" ", "\t", "\r", "\f", "v"}   \* "v" stands for the vertical tab
Digit == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
           CHOOSE n \in 0..9 : ToString(n) = d]

RECURSIVE Skip(_, _, _)
Skip(s, i, set) == IF i <= Len(s) /\ s[i] \in set THEN Skip(s, i + 1, set) ELSE i

Limit == 1000000    \* larger than any index
RECURSIVE Digits(_, _, _)
Digits(s, i, n) == IF i <= Len(s) /\ s[i] \in DOMAIN Digit
                   THEN Digits(s, i + 1, IF n >= Limit THEN Limit ELSE 10 * n + Digit[s[i]])
                   ELSE n

(* A number that starts at i, after spaces and perhaps a sign.              *)
Number(s, i) ==
  LET j == Skip(s, i, Space)
      neg == j <= Len(s) /\ s[j] = "-"
      k == IF j <= Len(s) /\ s[j] \in {"-", "+"} THEN j + 1 ELSE j
      e == Skip(s, k, DOMAIN Digit)
  IN IF e = k THEN [ok |-> FALSE, n |-> 0, next |-> i]
     ELSE [ok |-> TRUE, n |-> IF neg THEN -Digits(s, k, 0) ELSE Digits(s, k, 0), next |-> e]

MaxLine == 1022     \* of a longer line only so many characters count
Line(whole) ==
  LET s == IF Len(whole) > MaxLine THEN SubSeq(whole, 1, MaxLine) ELSE whole
      a == Number(s, 1)
      o == Number(s, a.next)
  IN [ok |-> a.ok /\ o.ok /\ Skip(s, o.next, {" ", "\t", "\r"}) = Len(s) + 1, a |-> a.n, o |-> o.n]

FirstWord(s) == LET i == Skip(s, 1, Space)
                    e == CHOOSE k \in i..(Len(s) + 1) : /\ (k = Len(s) + 1 \/ s[k] \in Space)
                                                        /\ \A m \in i..(k - 1) : s[m] \notin Space
                IN SubSeq(s, i, e - 1)
IsExit(s) == FirstWord(s) = <<"e", "x", "i", "t">>

(* P(o | b, a) and the belief that follows.                                 *)
Joint(D, b, a, o) == RVec([t \in 1..D.ns |-> RSum([s \in 1..D.ns |-> RMul(b[s], D.PO[a][o][s][t])])])
Follow(D, b, a, o) == LET j == TLCEval(Joint(D, b, a, o))
                          p == RSum(j)
                      IN IF REq(p, 0) THEN Zero(D) ELSE RVScale(RDiv(1, p), j)
(* An observation as unlikely as this may be taken for one that cannot      *)
(* occur (the program calls probabilities below 1e-10 zero).                *)
Unlikely(D, b, a, o) == RLeq(RSum(Joint(D, b, a, o)), "1e-9")

Good(D, ln) == ln.ok /\ ln.a \in 0..(D.na - 1) /\ ln.o \in 0..(D.no - 1)
=============================================================================

--------------------------- MODULE TraceContinue ----------------------------
(* Runs that continue another from a value function it left, against the    *)
(* run they continue: epoch k of a run that starts after j epochs is epoch  *)
(* j + k of the whole (Same of Continue.tla), and it stops when the whole   *)
(* does.  One behaviour per whole run, one step per epoch of each run that  *)
(* continues it.  Records:                                                  *)
(*   whole  the epochs: [al: vectors, err: the error reported]              *)
(*   parts  [from: epochs before it, status, ep: its epochs, fin: vectors]  *)
(*   stops  whether the whole ended by its criterion, on threshold thr      *)
EXTENDS ValueIteration, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, p, e           \* which whole, part, and epoch of the part
vars == <<c, p, e>>

T == Trace[c]
P == T.parts[p]
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, run |-> P.cmd, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)
VecsOf(al) == TLCEval([i \in 1..Len(al) |-> RVec(al[i].v)])

(* Every vector of U is one of W, but for one that stands out nowhere.      *)
Within(U, W, hints) ==
  \A i \in 1..Len(U) : \/ \E j \in 1..Len(W) : RLeq(RVDist(U[i], W[j]), T.tol)
                       \/ Len(hints[i]) = 0
                       \/ ~NeededAt(U, i, RVec(hints[i]), T.tol)
Agree(x, y) == /\ Within(VecsOf(x.al), VecsOf(y.al), x.pb)
               /\ Within(VecsOf(y.al), VecsOf(x.al), y.pb)

(* Reported errors have three digits.                                       *)
SameError(x, y) == \/ x = y
                   \/ x # "inf" /\ y # "inf" /\
                      RLeq(RAbs(RSub(x, y)), RAdd(T.tol, RMul("0.011", RMax(RAbs(x), RAbs(y)))))
                   \/ T.crit = "weak" /\ "inf" \in {x, y}    \* given up once too large

Init == c \in 1..Len(Trace) /\ p = 1 /\ e = 0

Epoch ==
  /\ p <= Len(T.parts)
  /\ e < Len(P.ep)
  /\ IF P.from + e + 1 > Len(T.whole) THEN Clause("goes-on", FALSE, <<P.from, e + 1, Len(T.whole)>>)
     ELSE LET w == T.whole[P.from + e + 1]
              x == P.ep[e + 1]
          IN /\ Clause("epoch", Agree(x, w), <<P.from + e + 1, x.al, w.al>>)
             /\ Clause("error", SameError(x.err, w.err), <<P.from + e + 1, x.err, w.err>>)
  /\ e' = e + 1
  /\ UNCHANGED <<c, p>>

Close == /\ p <= Len(T.parts)
         /\ e = Len(P.ep)
         /\ Clause("ended", P.status = "0", P.status)
         /\ IF P.status # "0" THEN TRUE
            ELSE /\ Clause("stops-early", P.from + e >= Len(T.whole), <<P.from, e, Len(T.whole)>>)
                 /\ Clause("final", e > 0 /\ Agree(P.fin, P.ep[e]), P.fin)
         /\ p' = p + 1
         /\ e' = 0
         /\ UNCHANGED c

Finish == /\ p = Len(T.parts) + 1
          /\ PrintT("@@" \o ToJson([done |-> c]))
          /\ p' = p + 1
          /\ UNCHANGED <<c, e>>

Next == Epoch \/ Close \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE Parts(_, _), Steps(_)
Parts(k, n) == IF n = 0 THEN 0 ELSE Len(Trace[k].parts[n].ep) + 1 + Parts(k, n - 1)
Steps(k) == IF k = 0 THEN 0 ELSE Parts(k, Len(Trace[k].parts)) + 2 + Steps(k - 1)
AllConsumed == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================

------------------------------ MODULE TraceLP -------------------------------
(* Linear programs and witness searches the program answered, one each.     *)
EXTENDS LP, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c
T == Trace[c]
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)
Close(x, y) == RLeq(RAbs(RSub(x, y)), T.tol)

Program ==
  LET P == T.p
      C == T.cert
      A == T.ans
  IN CASE C.kind = "optimal" ->
            /\ Clause("certificate", Optimal(P, C.x, C.y), C)
            /\ IF ~A.found THEN Bad("missed", <<P, C>>)
               ELSE LET v == RDot(P.c, C.x)
                        x == RVec(A.x)
                    IN /\ Clause("infeasible-point", Feasible(P, x, T.tol), <<P, A>>)
                       /\ Clause("not-optimal", Close(RDot(P.c, x), v), <<P, A, v>>)
                       /\ Clause("value", Close(A.value, v), <<P, A, v>>)
       [] C.kind = "infeasible" -> /\ Clause("certificate", Infeasible(P, C.y), C)
                                   /\ Clause("invented", ~A.found, <<P, A>>)
       [] C.kind = "unbounded" -> /\ Clause("certificate", Unbounded(P, C.x, C.y), C)
                                  /\ Clause("invented", ~A.found, <<P, A>>)

Witness ==
  LET v == T.v
      A == T.ans
      b == RVec(A.x)
  IN IF Len(T.list) = 0 THEN Clause("missed", A.found /\ Belief(b, T.tol), A)
     ELSE LET best == Margin(v, T.list, T.cert.x)
          IN /\ Clause("certificate", Belief(T.cert.x, 0) /\ NoBetter(v, T.list, T.cert.y, best), T.cert)
             /\ IF ~A.found THEN Clause("missed", RLt(best, RAdd(T.eps, T.tol)), <<v, T.list, best>>)
                ELSE /\ Clause("not-a-belief", Len(b) = Len(v) /\ Belief(b, T.tol), A)
                     /\ Clause("invented", RLeq(RSub(T.eps, T.tol), best), <<v, T.list, best, A>>)
                     /\ Clause("no-witness", RLeq(RSub(T.eps, T.tol), Margin(v, T.list, b)), <<v, T.list, A>>)
                     /\ Clause("value", Close(A.value, best), <<v, T.list, best, A>>)

Check == /\ IF T.status # "ok" THEN Bad("ended", T.status) ELSE IF T.kind = "lp" THEN Program ELSE Witness
         /\ PrintT("@@" \o ToJson([done |-> c]))
Init == c \in 1..Len(Trace)
Next == c > 0 /\ Check /\ c' = -c
Spec == Init /\ [][Next]_c
AllConsumed == TLCGet("stats").distinct = 2 * Len(Trace)
=============================================================================

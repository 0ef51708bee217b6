----------------------------- MODULE TraceFile -----------------------------
(* Files as the program read them, against PomdpFile.tla.  Each record has  *)
(* the file's tokens and what the program made of it:                       *)
(*   status  "ok" with the tables, or "rejected", or how it died            *)
EXTENDS PomdpFile, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, i, s
vars == <<c, i, s>>

Tr == Trace[c]
Say(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Say(name, at)

Init == c \in 1..Len(Trace) /\ i = 1 /\ s = Blank

Read == /\ s.ph \in {"preamble", "start", "params"}
        /\ LET g == TLCEval(ReadOne(s, Tr.toks, i)) IN s' = g.s /\ i' = g.i
        /\ UNCHANGED c

Close(x, y) == /\ y # "nan"
               /\ RLeq(RAbs(RSub(x, y)), RAdd("2e-10", RMul("1e-12", RAbs(x))))

Diff(f, d) == {x \in DOMAIN f : ~Close(f[x], d[x])}

\* the dumped tables are nested sequences
N3(t) == [x \in DOMAIN s.T |-> t[x[1] + 1][x[2] + 1][x[3] + 1]]

Same ==
  LET d == Tr.dump
      n == s.n
  IN
  IF d.ns # n["states"] \/ d.na # n["actions"] \/ d.no # n["observations"]
  THEN Say("sizes", <<d.ns, d.na, d.no>>)
  ELSE
  LET dT == Diff(s.T, [x \in DOMAIN s.T |-> d.T[x[1] + 1][x[2] + 1][x[3] + 1]])
      dO == Diff(s.O, [x \in DOMAIN s.O |-> d.O[x[1] + 1][x[2] + 1][x[3] + 1]])
      dR == Diff(s.R, [x \in DOMAIN s.R |-> d.R[x[1] + 1][x[2] + 1][x[3] + 1][x[4] + 1]])
      dB == Diff(s.b, [x \in DOMAIN s.b |-> d.b[x + 1]])
      \* the expected reward is summed in floating point
      big == RAdd(1, RMax(0, RSum([x \in 1..d.na |-> RSum([y \in 1..d.ns |-> RSum([t \in 1..d.ns |->
                   RSum([z \in 1..d.no |-> RAbs(s.R[<<x - 1, y - 1, t - 1, z - 1>>])])])])])))
      dQ == {x \in (0..(d.na - 1)) \X (0..(d.ns - 1)) :
               \/ d.Q[x[1] + 1][x[2] + 1] = "nan"
               \/ ~RLeq(RAbs(RSub(ImmReward(s, x[1], x[2]), d.Q[x[1] + 1][x[2] + 1])),
                       RMul(big, "5e-10"))}
  IN /\ Clause("discount", Close(s.disc, d.discount), d.discount)
     /\ Clause("values", s.vals = d.values, d.values)
     /\ Clause("transition", dT = {}, dT)
     /\ Clause("observation", dO = {}, dO)
     /\ Clause("reward", dR = {}, dR)
     /\ Clause("start", dB = {}, dB)
     /\ Clause("expected-reward", dQ = {}, dQ)

Judge == /\ s.ph \in {"done", "bad"}
         /\ CASE Tr.status \notin {"ok", "rejected"} -> Say("died", Tr.status)
              [] s.dup -> TRUE           \* nothing is said about this file
              [] s.ph = "bad" -> Clause("accepted", Tr.status = "rejected", s.why)
              [] Tr.status = "rejected" -> Say("refused", i)
              [] "dump" \in DOMAIN Tr -> Same
              [] OTHER -> TRUE
         /\ s' = [s EXCEPT !.ph = "judged"]
         /\ PrintT("@@" \o ToJson([done |-> c, ph |-> s.ph, why |-> IF s.dup THEN "open" ELSE s.why]))
         /\ UNCHANGED <<c, i>>

Next == Read \/ Judge
Spec == Init /\ [][Next]_vars

AllConsumed == TLCGet("stats").distinct > Len(Trace)
=============================================================================

---------------------------- MODULE TraceAdjust ----------------------------
(* Recorded runs with -vi_variation adjustable_epsilon: one behaviour per   *)
(* run, one step per epoch and one for the end of the run.                  *)
EXTENDS Adjust, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, D, V, eps, sizes
vars == <<c, l, D, V, eps, sizes>>

T == Trace[c]
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, epoch |-> l + 1, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)
Parse(al) == TLCEval([i \in 1..Len(al) |-> [a |-> al[i].a, v |-> RVec(al[i].v)]])

(* Printed with four digits.                                                *)
Printed(text, x) == text # "" /\ RLeq(RAbs(RSub(text, x)), RMul("5.1e-4", x))

(* The precision is the general one, or that of epsilon pruning.            *)
Now == IF T.approx.q = "epsilon_prune" THEN [T.approx EXCEPT !.peps = RStr(eps)]
       ELSE [T.approx EXCEPT !.eps = RStr(eps)]

Init == /\ c \in 1..Len(Trace)
        /\ l = 0
        /\ D = Derive(Trace[c].model)
        /\ V = Vecs(Parse(Trace[c].init))
        /\ eps = R(Trace[c].sched.start)
        /\ sizes = <<>>

Epoch ==
  /\ l >= 0 /\ l < Len(T.ep)
  /\ LET e == T.ep[l + 1]
         W == Parse(e.al)
         sz == Append(sizes, e.k)
         last == l + 1 = Len(T.ep) /\ T.status # "cut"
         nx == After(T.sched, eps, sz)
     IN /\ IF ~ShapeOk(D, W) THEN Bad("shape", "")
           ELSE LET G == Project(D, V)
                IN /\ \A i \in 1..Len(W) : Clause("unachieved", Achieved(D, G, W[i], R(e.tol)), <<i, W[i].a>>)
                   /\ IF ~e.full \/ ~Bounded(Now) THEN TRUE
                      ELSE LET s == Short(D, G, W, Verts(D.ns, Vecs(W), e.hb), RAdd(e.tol, Loss(D.no, Now)))
                           IN Clause("below-backup", s = {}, CHOOSE b \in s : TRUE)
        /\ IF l = 0 THEN Clause("start-epsilon", Printed(T.first, eps), T.first) ELSE TRUE
        /\ IF last THEN Clause("adjusted", e.adj = "", <<e.adj, "after the last epoch">>)
           ELSE IF REq(nx, eps) THEN Clause("adjusted", e.adj = "", <<e.adj, sz>>)
           ELSE Clause("adjusted", Printed(e.adj, nx), <<e.adj, nx, sz>>)
        /\ V' = Vecs(W)
        /\ eps' = TLCEval(nx)
        /\ sizes' = sz
  /\ l' = l + 1
  /\ UNCHANGED <<c, D>>

Finish ==
  /\ l = Len(T.ep)
  /\ Clause("ended", T.status \in {"0", "cut"} /\ ~T.garbled, T.status)
  /\ PrintT("@@" \o ToJson([done |-> c]))
  /\ l' = l + 1
  /\ UNCHANGED <<c, D, V, eps, sizes>>

Next == Epoch \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE Len(Trace[k].ep) + 2 + Steps(k - 1)
AllConsumed == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================

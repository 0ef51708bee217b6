----------------------------- MODULE TraceGrid -----------------------------
(* Recorded runs of the finite grid method against Grid.tla: first the      *)
(* points of the grid one by one, then the epochs, then the end.            *)
EXTENDS Grid, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, ph, l, D, V, grid
vars == <<c, ph, l, D, V, grid>>

Tr == Trace[c]
Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, step |-> l + 1, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)

Init == /\ c \in 1..Len(Trace)
        /\ ph = "grid" /\ l = 0
        /\ D = Derive(Trace[c].model)
        /\ grid = TLCEval([i \in 1..Len(Trace[c].grid) |-> RVec(Trace[c].grid[i])])
        /\ V = [i \in 1..Len(Trace[c].init) |-> RVec(Trace[c].init[i].v)]

Point == /\ ph = "grid" /\ l < Len(grid)
         /\ Clause("grid-point", MayAppend(Tr.model, D, Tr.type, Tr.start, grid, l + 1, R(Tr.eps)), Tr.grid[l + 1])
         /\ l' = l + 1
         /\ UNCHANGED <<c, ph, D, V, grid>>
Made == /\ ph = "grid" /\ l = Len(grid)
        /\ Clause("grid", Len(grid) > 0 /\ GridDone(Tr.model, D, Tr.type, Tr.start, grid, Tr.limit, R(Tr.eps)), Len(grid))
        /\ ph' = "epochs" /\ l' = 0
        /\ UNCHANGED <<c, D, V, grid>>

ErrOk(e, w) == /\ e.err \notin {"none", "inf"}
               /\ RLeq(RSub(RMul("0.994", w), e.tol), e.err)
               /\ RLeq(e.err, RAdd(RMul("1.006", w), e.tol))

Epoch ==
  /\ ph = "epochs" /\ l < Len(Tr.ep)
  /\ LET e == Tr.ep[l + 1]
         W == TLCEval([i \in 1..Len(e.al) |-> [a |-> e.al[i].a, v |-> RVec(e.al[i].v)]])
         ok == ShapeOk(D, W)
         G == Project(D, V)
         eps == R(e.eps)
         w == GridError(V, Vecs(W), grid)
         thr == Threshold(Tr.delta, D.g)
         last == l + 1 = Len(Tr.ep)
         horizon == l + 1 >= Tr.horizon
     IN
     /\ Clause("shape", ok, Len(W))
     /\ IF ~ok THEN TRUE ELSE
        /\ Clause("order", Sorted(W), "")
        /\ Clause("unachieved", \A i \in 1..Len(W) : Achieved(D, G, W[i], eps), "")
        /\ LET sh == GridShort(D, G, W, grid, R(e.cut)) IN Clause("below-backup", sh = {}, sh)
        /\ Clause("size", Len(W) <= Len(grid), <<Len(W), Len(grid)>>)
        /\ Clause("pg", PgShapeOk(D, V, W, e.pg) /\ PgLinksOk(D, V, W, e.pg), "")
        /\ IF PgShapeOk(D, V, W, e.pg) /\ PgLinksOk(D, V, W, e.pg)
           THEN Clause("pg-value", \A i \in 1..Len(W) :
                         LinksAchieve(D, G, W[i], [z \in 1..D.no |-> IF e.pg[i].l[z] = -1 THEN 0 ELSE e.pg[i].l[z]], eps), "")
           ELSE TRUE
        /\ Clause("report", e.n = l + 1 /\ e.k = Len(W), <<e.n, e.k>>)
        /\ Clause("err", ErrOk(e, w), <<e.err, RStr(w)>>)
        /\ Clause("stop",
             IF horizon \/ Tr.status # "0" THEN TRUE
             ELSE IF REq(D.g, 0) THEN last
             ELSE CASE RLeq(RAdd(w, e.tol), thr) -> last
                    [] RLt(RAdd(thr, e.tol), w) -> ~last
                    [] OTHER -> TRUE, <<RStr(w), RStr(thr)>>)
        /\ Clause("horizon", Tr.horizon > 0 => l + 1 <= Tr.horizon, l + 1)
     /\ V' = IF ok THEN Vecs(W) ELSE V
  /\ l' = l + 1
  /\ UNCHANGED <<c, ph, D, grid>>

AlSame(x, y) == /\ Len(x) = Len(y)
                /\ \A i \in 1..Len(x) : x[i].a = y[i].a /\ RVec(x[i].v) = RVec(y[i].v)

Finish ==
  /\ ph = "epochs" /\ l = Len(Tr.ep)
  /\ Clause("ended", Tr.status = "0" /\ ~Tr.garbled /\ Len(Tr.ep) > 0, Tr.status)
  /\ IF Tr.status # "0" \/ Tr.garbled \/ Tr.ep = <<>> THEN TRUE
     ELSE /\ Clause("final", Tr.fin.al = Tr.ep[Len(Tr.ep)].al /\ Tr.fin.pg = Tr.ep[Len(Tr.ep)].pg, "")
          /\ IF ~Tr.bare.ran THEN TRUE
             ELSE Clause("bare", Tr.bare.ok /\ Tr.bare.lines = Tr.lines /\ AlSame(Tr.bare.al, Tr.fin.al)
                                 /\ Tr.bare.pg = Tr.fin.pg, "the same run that saves less")
  /\ PrintT("@@" \o ToJson([done |-> c, points |-> Len(grid), epochs |-> Len(Tr.ep)]))
  /\ ph' = "end"
  /\ UNCHANGED <<c, l, D, V, grid>>

Next == Point \/ Made \/ Epoch \/ Finish
Spec == Init /\ [][Next]_vars

AllConsumed == TLCGet("stats").distinct >= 3 * Len(Trace)
=============================================================================

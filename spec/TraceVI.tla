------------------------------ MODULE TraceVI ------------------------------
(* Recorded runs of the solver against ValueIteration.tla: one behaviour    *)
(* per run, one step per epoch and one for the end of the run.  Every       *)
(* clause that a step does not satisfy is reported; the run then goes on    *)
(* from the recorded state, so that the rest of it is judged too.           *)
EXTENDS ValueIteration, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES c, l, D, V
vars == <<c, l, D, V>>

Bad(clause, at) == PrintT("@@" \o ToJson([bad |-> clause, c |-> c, epoch |-> l + 1, at |-> ToString(at)]))
Clause(name, holds, at) == IF holds THEN TRUE ELSE Bad(name, at)

Parse(al) == TLCEval([i \in 1..Len(al) |-> [a |-> al[i].a, v |-> RVec(al[i].v)]])

Init == /\ c \in 1..Len(Trace)
        /\ l = 0
        /\ D = Derive(Trace[c].model)
        /\ V = Vecs(Parse(Trace[c].init))

T == Trace[c]

ErrText(e, lo, hi) ==   \* the printed error (three digits) lies in [lo, hi]
  /\ e.err \notin {"none", "inf"}
  /\ RLeq(RMul("0.994", lo), e.err)
  /\ RLeq(e.err, RMul("1.006", hi))

(* What the criterion says of this epoch: the interval the error lies in,   *)
(* "any" when that is not decided here.                                     *)
Judge(e, W) ==
  CASE T.kind # "exact" -> [known |-> FALSE]
    [] T.crit = "weak" ->
         LET w == WeakError(V, Vecs(W))
         IN [known |-> TRUE, lo |-> RSub(w, R(e.eps)), hi |-> RAdd(w, R(e.eps)), zero |-> REq(w, 0)]
    [] T.crit = "bellman" /\ D.ns <= 3 /\ e.full ->
         LET w == BellmanError(D.ns, V, Vecs(W))
         IN [known |-> TRUE, lo |-> RSub(w, e.tol), hi |-> RAdd(w, e.tol), zero |-> FALSE]
    [] OTHER -> [known |-> FALSE]

EpochErr(e, W, j) ==
  CASE T.crit = "exact" /\ T.kind = "exact" ->
         Clause("err", e.err = "inf" \/ REq(e.err, 0), e.err)
    [] ~j.known -> TRUE
    [] T.crit = "weak" /\ e.err = "inf" ->
         \* the exact value is not worked out once it exceeds stop_delta
         Clause("err", RLeq(T.delta, j.hi), <<e.err, RStr(j.hi)>>)
    [] OTHER -> Clause("err", ErrText(e, j.lo, j.hi), <<e.err, j.lo, j.hi>>)

AtEnd == l + 1 = Len(T.ep)
AtHorizon == T.horizon > 0 /\ l + 1 >= T.horizon

(* The run stops at the horizon and, before that, exactly when the          *)
(* criterion is met.                                                        *)
EpochStop(e, W, j) ==
  /\ Clause("horizon", T.horizon > 0 => l + 1 <= T.horizon, l + 1)
  /\ IF T.kind # "exact" \/ AtHorizon \/ T.status # "0" THEN TRUE
     ELSE IF REq(D.g, 0) /\ T.crit # "exact"
     THEN Clause("stop", AtEnd, "discount 0: any error is within the threshold")
     ELSE IF T.crit = "exact"
     THEN /\ Clause("stop", SameUpTo(V, Vecs(W), "0.99e-9") => AtEnd, "the same vectors twice")
          /\ Clause("stop-early", AtEnd => SameUpTo(V, Vecs(W), "1.01e-9"), "different vectors")
     ELSE IF ~j.known THEN TRUE
     ELSE LET th == Threshold(T.delta, D.g)
          IN /\ Clause("stop", ((RLeq(j.hi, th) /\ (T.crit = "weak" => RLeq(j.hi, T.delta))) \/ j.zero) => AtEnd, <<j.lo, j.hi, th>>)
             /\ Clause("stop-early", AtEnd => RLeq(j.lo, th), <<j.lo, j.hi, th>>)

Value(e, W) ==
  LET G == Project(D, V)
      links == /\ PgShapeOk(D, V, W, e.pg) /\ PgLinksOk(D, V, W, e.pg)
      tol == R(e.tol)
      acc == R(e.acc)
  IN /\ Clause("pg-shape", PgShapeOk(D, V, W, e.pg), "nodes, actions or links per node")
     /\ Clause("pg-links", PgLinksOk(D, V, W, e.pg), "a link out of range, or an impossible observation linked")
     /\ \A i \in 1..Len(W) :
          IF links /\ LinksAchieve(D, G, W[i], e.pg[i].l, acc) THEN TRUE
          ELSE /\ Clause("pg-value", ~links, <<i, e.pg[i]>>)
               /\ Clause("unachieved", Achieved(D, G, W[i], acc), <<i, W[i].a>>)
     /\ IF ~e.full \/ ~Bounded(T.approx) THEN TRUE
        ELSE LET s == Short(D, G, W, Verts(D.ns, Vecs(W), e.hb), RAdd(tol, Loss(D.no, T.approx)))
             IN Clause("below-backup", s = {}, CHOOSE b \in s : TRUE)

(* A vector that differs from another one in some state by less than the    *)
(* linear programs resolve (but differs) may stand or fall by rounding.     *)
Beside(U, i, d) ==
  \E k \in 1..Len(U) : \E s \in 1..Len(U[i]) :
     LET x == RSub(U[k][s], U[i][s])
     IN ~RLeq(RAbs(x), "1e-10") /\ RLeq(RAbs(x), d)

Pars(e, W) ==
  IF ~e.pars THEN TRUE
  ELSE LET U == Vecs(W)
       IN \A i \in 1..Len(W) :
            IF Len(W) = 1 \/ Len(e.pb[i]) = 0 \/ NeededAt(U, i, RVec(e.pb[i]), "1e-11") THEN TRUE
            ELSE IF Beside(U, i, RMul(4, R(e.tol))) THEN TRUE
            ELSE IF D.ns = 2 THEN Clause("useless", Needed2(U, i, "1e-11"), i)
            ELSE Clause("useless", ~(Len(e.pl[i]) > 0 /\ Useless(U, i, RVec(e.pl[i]), "1e-9")), i)

Epoch ==
  /\ l >= 0 /\ l < Len(T.ep)
  /\ LET e == T.ep[l + 1]
         W == Parse(e.al)
         j == TLCEval(Judge(e, W))
     IN /\ IF ShapeOk(D, W)
           THEN /\ Clause("order", Sorted(W), "not sorted")
                /\ Value(e, W)
                /\ Pars(e, W)
                /\ EpochErr(e, W, j)
                /\ EpochStop(e, W, j)
           ELSE Bad("shape", "no vectors, or an action or vector that the model has not got")
        /\ Clause("report", e.n = l + 1 /\ e.k = Len(W), <<e.n, e.k, Len(W)>>)
        /\ V' = Vecs(W)
  /\ l' = l + 1
  /\ UNCHANGED <<c, D>>

AlSame(x, y) == /\ Len(x) = Len(y)
                /\ \A i \in 1..Len(x) : x[i].a = y[i].a /\ RVec(x[i].v) = RVec(y[i].v)

(* The end: the run ended by itself, the final files are those of the last  *)
(* epoch, the penultimate file is that of the epoch before.                 *)
Finish ==
  /\ l = Len(T.ep)
  /\ Clause("ended", T.status \in {"0", "cut"} /\ ~T.garbled, T.status)
  /\ IF T.status # "0" \/ T.garbled THEN TRUE
     ELSE /\ Clause("epochs", Len(T.ep) > 0 /\ T.nstat = Len(T.ep), <<T.nstat, Len(T.ep)>>)
          /\ Clause("final", /\ Len(T.ep) > 0
                             /\ AlSame(T.fin.al, T.ep[Len(T.ep)].al)
                             /\ T.fin.pg = T.ep[Len(T.ep)].pg, "final files")
          /\ Clause("penultimate", IF T.penw /\ Len(T.ep) > 1
                                   THEN AlSame(T.pen, T.ep[Len(T.ep) - 1].al) ELSE ~T.penx, "penultimate file")
          /\ Clause("leftover", T.left = 0, "backup file not removed")
          /\ IF ~T.bare.ran THEN TRUE
             ELSE Clause("bare", T.bare.ok /\ T.bare.lines = T.lines /\ AlSame(T.bare.al, T.fin.al)
                                 /\ T.bare.pg = T.fin.pg, "the same run that saves less")
  /\ PrintT("@@" \o ToJson([done |-> c]))
  /\ l' = l + 1
  /\ UNCHANGED <<c, D, V>>

Next == Epoch \/ Finish
Spec == Init /\ [][Next]_vars

RECURSIVE Steps(_)
Steps(k) == IF k = 0 THEN 0 ELSE Len(Trace[k].ep) + 2 + Steps(k - 1)
AllConsumed == TLCGet("stats").distinct = Steps(Len(Trace))
=============================================================================

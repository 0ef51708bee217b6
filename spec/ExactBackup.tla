---------------------------- MODULE ExactBackup ----------------------------
(* The four exact algorithms for one epoch, as machines whose choices       *)
(* (which vector, observation or belief next, which of several best plans)  *)
(* are left open, over a family of two-state models: whatever is chosen,    *)
(* they end, with the same set of vectors, which is the backup; and on the  *)
(* way they never hold a vector above it.                                   *)
EXTENDS Pomdp

CONSTANT Big        \* TRUE: the larger family

Num2(p) == <<R(p), RSub(1, p)>>

Ts == {<<Num2("1"), Num2("0")>>,              \* identity
       <<Num2("1/2"), Num2("1/2")>>,          \* reset
       <<Num2("9/10"), Num2("1/4")>>}
Os == {<<Num2("3/4"), Num2("1/4")>>,
       <<Num2("1"), Num2("1")>>,              \* the second observation is impossible
       <<Num2("1"), Num2("1/3")>>}
Rs == {<<0, 4>>, <<3, -2>>, <<1, 1>>}
Starts == {<<<<0, 0>>>>,
           <<<<4, 0>>, <<0, 4>>>>,
           <<<<4, 0>>, <<3, 3>>, <<3, 3>>>>} \cup               \* a duplicate
          (IF Big THEN {<<<<4, 0>>, <<0, 4>>, <<3, 3>>>>,
                        <<<<4, 0>>, <<0, 4>>, <<1, 1>>>>} ELSE {})    \* a useless one
Small == {<<T1, T2, O1, O2, r1, r2>> \in Ts \X Ts \X Os \X Os \X Rs \X Rs :
            /\ T1 = <<Num2("9/10"), Num2("1/4")>> /\ r1 = <<0, 4>>
            /\ Big \/ (O2 = <<Num2("3/4"), Num2("1/4")>> /\ r2 # <<1, 1>> /\ T2 # <<Num2("1/2"), Num2("1/2")>>)}

Rew(a, r) == <<[a |-> a, s |-> 1, t |-> 0, z |-> 0, v |-> r[1]], [a |-> a, s |-> 2, t |-> 0, z |-> 0, v |-> r[2]]>>
Model(f) == [ns |-> 2, na |-> 2, no |-> 2, g |-> "9/10", cost |-> FALSE,
             T |-> <<f[1], f[2]>>, O |-> <<f[3], f[4]>>, R |-> Rew(1, f[5]) \o Rew(2, f[6])]

VARIABLES mdl,     \* the model's tables
          V,       \* the value function to back up
          alg,     \* algorithm
          act,     \* the action being worked on, 0 before the first
          W,       \* its vectors (enum, incprune) or plans (witness, two-pass) so far
          todo,    \* what is left: observations, vectors or plans
          U,       \* vectors of the actions done
          done
vars == <<mdl, V, alg, act, W, todo, U, done>>

-----------------------------------------------------------------------------
SeqOf(S) == LET RECURSIVE f(_)
                f(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o f(X \ {x})
            IN TLCEval(f(S))

Useful(S, v) == LET O == SeqOf(S \ {v})
                IN \/ O = <<>>
                   \/ \E b \in Verts2(O) : RLt(Val(O, b), RDot(v, b))
Prune(S) == TLCEval({v \in S : Useful(S, v)})

G(a, z) == IF mdl.poss[a][z] THEN TLCEval([i \in 1..Len(V) |-> GVec(mdl, V[i], a, z)]) ELSE <<Zero(mdl)>>
Range(s) == {s[i] : i \in 1..Len(s)}
Cross(S1, S2) == TLCEval({RVAdd(x, y) : x \in S1, y \in S2})

Plans(a) == {f \in [1..2 -> 1..Len(V)] : \A z \in 1..2 : f[z] <= Len(G(a, z))}
PVec(a, f) == RVAdd(mdl.Q[a], RVAdd(G(a, 1)[f[1]], G(a, 2)[f[2]]))
PVecs(a, S) == TLCEval({PVec(a, f) : f \in S})
Neighbours(a, f) == {h \in Plans(a) : (h[1] = f[1]) # (h[2] = f[2])}
BestPlans(a, b) == LET P == Plans(a)
                       m == RMaxDot(SeqOf(PVecs(a, P)), b)
                   IN {f \in P : REq(RDot(PVec(a, f), b), m)}

Reference == Prune(UNION {PVecs(a, Plans(a)) : a \in 1..2})

-----------------------------------------------------------------------------
Algs == {"enum", "incprune", "witness", "twopass"}

Init == /\ \E f \in Small : mdl = Derive(Model(f))
        /\ \E s \in Starts : V = TLCEval([i \in 1..Len(s) |-> RVec(s[i])])
        /\ alg \in Algs
        /\ act = 0 /\ W = {} /\ todo = {} /\ U = {} /\ done = FALSE

Begin(a) ==
  /\ act' = a
  /\ CASE alg = "enum" ->
            LET all == Cross({mdl.Q[a]}, Cross(Prune(Range(G(a, 1))), Prune(Range(G(a, 2)))))
            IN W' = all /\ todo' = all
       [] alg = "incprune" -> W' = {mdl.Q[a]} /\ todo' = {1, 2}
       [] OTHER -> \E c \in {<<R(1), R(0)>>, <<R("1/2"), R("1/2")>>} : \E f \in BestPlans(a, c) :
                       /\ W' = {f}
                       /\ todo' = IF alg = "witness" THEN Neighbours(a, f) ELSE {f}
  /\ UNCHANGED <<mdl, V, alg, U, done>>

Start == act = 0 /\ Begin(1)

StepEnum == alg = "enum" /\ \E v \in todo :
              /\ W' = IF Useful(W, v) THEN W ELSE W \ {v}
              /\ todo' = todo \ {v}

StepInc == alg = "incprune" /\ \E z \in todo :
              /\ W' = Prune(Cross(W, Prune(Range(G(act, z)))))
              /\ todo' = todo \ {z}

\* beliefs where plan f is worth more than everything in W
Witnesses(f) == LET s == SeqOf(PVecs(act, W)) IN {b \in Verts2(s) : RLt(Val(s, b), RDot(PVec(act, f), b))}

StepWitness == alg = "witness" /\ \E f \in todo :
   LET bs == Witnesses(f)
   IN IF bs = {} THEN W' = W /\ todo' = todo \ {f}
      ELSE \E b \in bs : \E h \in BestPlans(act, b) :
             /\ W' = W \cup {h}
             /\ todo' = todo \cup Neighbours(act, h)

\* the ends of the region where f is at least as good as its neighbours
StepTwoPass == alg = "twopass" /\ \E f \in todo :
   LET nb == PVecs(act, Neighbours(act, f) \cup {f})
       s == SeqOf(nb)
       ends == {b \in Verts2(s) : REq(Val(s, b), RDot(PVec(act, f), b))}
       new == UNION {BestPlans(act, b) : b \in ends} \ W
   IN /\ W' = W \cup new
      /\ todo' = (todo \ {f}) \cup new

Step == /\ act > 0 /\ todo # {} /\ ~done
        /\ (StepEnum \/ StepInc \/ StepWitness \/ StepTwoPass)
        /\ UNCHANGED <<mdl, V, alg, act, U, done>>

Result == IF alg \in {"witness", "twopass"} THEN PVecs(act, W) ELSE W

Close == /\ act > 0 /\ todo = {} /\ ~done
         /\ IF act = 1
            THEN /\ act' = 2
                 /\ U' = Result
                 /\ \* begin the second action
                    CASE alg = "enum" ->
                           LET all == Cross({mdl.Q[2]}, Cross(Prune(Range(G(2, 1))), Prune(Range(G(2, 2)))))
                           IN W' = all /\ todo' = all
                      [] alg = "incprune" -> W' = {mdl.Q[2]} /\ todo' = {1, 2}
                      [] OTHER -> \E f \in BestPlans(2, <<R(1), R(0)>>) :
                                    /\ W' = {f}
                                    /\ todo' = IF alg = "witness" THEN Neighbours(2, f) ELSE {f}
                 /\ UNCHANGED done
            ELSE /\ U' = Prune(U \cup Result)
                 /\ done' = TRUE
                 /\ W' = {} /\ todo' = {} /\ UNCHANGED act
         /\ UNCHANGED <<mdl, V, alg>>

Next == Start \/ Step \/ Close
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
Exact == done => U = Reference

\* nothing that is held is worth more than the backup anywhere
Corner1 == <<R(1), R(0)>>
Corner2 == <<R(0), R(1)>>
Held == U \cup (IF done \/ act = 0 \/ alg \in {"enum", "incprune"} THEN {} ELSE PVecs(act, W))
NoOvershoot == LET GG == Project(mdl, V)
               IN \A b \in {Corner1, Corner2, Num2("1/2"), Num2("1/3")} :
                    \A v \in Held : RLeq(RDot(v, b), Look(mdl, GG, b))

\* the reference itself: attained value equals the look-ahead everywhere
ReferenceRight == act = 0 =>
   LET GG == Project(mdl, V)  r == SeqOf(Reference)
   IN \A b \in Verts2(r) : REq(Val(r, b), Look(mdl, GG, b))

Ends == <>done
=============================================================================

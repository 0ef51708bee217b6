------------------------------ MODULE RatLaws ------------------------------
(* The rationals as pairs of integers, against which TLC checks the Java    *)
(* override of Rat.tla on every pair of small fractions.                    *)
EXTENDS Integers, Sequences, TLC, Rat

CONSTANT N, D

Nums == -N..N
Dens == (-D..D) \ {0}

Neg(x) == IF x < 0 THEN -1 ELSE 1
\* pair p <= pair q
Leq(p, q) == p[1] * q[2] * Neg(p[2]) * Neg(q[2]) <= q[1] * p[2] * Neg(p[2]) * Neg(q[2])
Same(p, q) == p[1] * q[2] = q[1] * p[2]
Of(p) == RDiv(p[1], p[2])

VARIABLES p, q

Init == p \in Nums \X Dens /\ q \in Nums \X Dens
Next == UNCHANGED <<p, q>>
Spec == Init /\ [][Next]_<<p, q>>

Fold2(s) == RAdd(RAdd(s[1], s[2]), s[3])

Laws ==
  /\ Of(p) = R(ToString(p[1] * Neg(p[2])) \o "/" \o ToString(p[2] * Neg(p[2])))
  /\ (Of(p) = Of(q)) <=> Same(p, q)
  /\ REq(Of(p), Of(q)) <=> Same(p, q)
  /\ RLeq(Of(p), Of(q)) <=> Leq(p, q)
  /\ RLt(Of(p), Of(q)) <=> (Leq(p, q) /\ ~Same(p, q))
  /\ RAdd(Of(p), Of(q)) = Of(<<p[1] * q[2] + q[1] * p[2], p[2] * q[2]>>)
  /\ RSub(Of(p), Of(q)) = Of(<<p[1] * q[2] - q[1] * p[2], p[2] * q[2]>>)
  /\ RMul(Of(p), Of(q)) = Of(<<p[1] * q[1], p[2] * q[2]>>)
  /\ q[1] # 0 => RDiv(Of(p), Of(q)) = Of(<<p[1] * q[2], p[2] * q[1]>>)
  /\ RNeg(Of(p)) = Of(<<-p[1], p[2]>>)
  /\ RAbs(Of(p)) = IF Leq(<<0, 1>>, p) THEN Of(p) ELSE Of(<<-p[1], p[2]>>)
  /\ RMax(Of(p), Of(q)) = IF Leq(p, q) THEN Of(q) ELSE Of(p)
  /\ RMin(Of(p), Of(q)) = IF Leq(p, q) THEN Of(p) ELSE Of(q)
  /\ R(RStr(Of(p))) = Of(p)
  /\ LET s == <<Of(p), Of(q), R(3)>>
         t == <<Of(q), R("-0.5"), Of(p)>>
     IN /\ RSum(s) = Fold2(s)
        /\ RDot(s, t) = RSum(<<RMul(s[1], t[1]), RMul(s[2], t[2]), RMul(s[3], t[3])>>)
        /\ RVAdd(s, t) = [i \in 1..3 |-> RAdd(s[i], t[i])]
        /\ RVScale(Of(q), s) = [i \in 1..3 |-> RMul(Of(q), s[i])]
        /\ RVec(<<p[1], "0.25", Of(q)>>) = <<R(p[1]), RDiv(1, 4), Of(q)>>
        /\ RVDist(s, t) = RMax(RAbs(RSub(s[1], t[1])),
                               RMax(RAbs(RSub(s[2], t[2])), RAbs(RSub(s[3], t[3]))))
        /\ RMaxDot(<<s>>, t) = RDot(s, t)
        /\ RMaxDot(<<s, t, s>>, t) = RMax(RDot(s, t), RDot(t, t))
=============================================================================

-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic.  TLC's integers have 32 bits, which is too    *)
(* few for value iteration, so TLC evaluates these operators with the Java  *)
(* class of the same name (java/Rat.java, arbitrary precision).  A rational *)
(* is an opaque value; wherever one is expected an integer or a string      *)
(* ("-1.25", "7/3", "1e-9") may be given too, and R(x) makes the canonical  *)
(* value of it (compare only canonical values with =).                      *)
(*                                                                          *)
(* RatLaws.tla has TLC check the override against the definitions of the    *)
(* rationals as pairs of integers.                                          *)
LOCAL INSTANCE TLC

LOCAL NoOverride == Assert(FALSE, "Rat: the Java override is not on the class path")

R(x) == NoOverride            \* canonical rational of an integer, string or rational
RAdd(x, y) == NoOverride      \* x + y
RSub(x, y) == NoOverride      \* x - y
RNeg(x) == NoOverride         \* -x
RMul(x, y) == NoOverride      \* x * y
RDiv(x, y) == NoOverride      \* x / y   (y # 0)
RLeq(x, y) == NoOverride      \* x <= y
RLt(x, y) == NoOverride       \* x < y
REq(x, y) == NoOverride       \* x = y
RAbs(x) == NoOverride         \* |x|
RMax(x, y) == NoOverride
RMin(x, y) == NoOverride
RStr(x) == NoOverride         \* the string "n/d" or "n"
RSum(s) == NoOverride         \* sum of a sequence
RDot(s, t) == NoOverride      \* inner product of two sequences of the same length
RVec(s) == NoOverride         \* canonical rationals of a sequence
RVAdd(s, t) == NoOverride     \* componentwise sum
RVScale(c, s) == NoOverride   \* c * s
RVDist(s, t) == NoOverride    \* largest |s[i] - t[i]|
RMaxDot(vs, b) == NoOverride  \* largest inner product with b over a sequence of vectors
=============================================================================

----------------------------- MODULE Collections -----------------------------
(* The collections the program computes with: lists of value-function       *)
(* vectors (alpha lists) and lists of belief points (vector lists), as the  *)
(* sequences they stand for, and what every operation may do to them.       *)
(*                                                                          *)
(* A node is [a: action, v: vector, m: marked, w: number of its witness     *)
(* point or 0, t: who it is].  A state is a pair of lists.                  *)
(* An operation o has a name o.k, a list o.l ("A" or "B", the other being   *)
(* its partner), and arguments a, v, t, i, e.  Vectors are of integers; the *)
(* tolerance of comparisons is e + 1/2.  b is twice a belief point.         *)
EXTENDS Integers, Sequences, FiniteSets

Node(a, v, t) == [a |-> a, v |-> v, m |-> FALSE, w |-> 0, t |-> t]
Other(l) == IF l = "A" THEN "B" ELSE "A"
Abs(x) == IF x < 0 THEN -x ELSE x

Same(v, u, e) == \A i \in DOMAIN v : Abs(v[i] - u[i]) <= e
Zero(v, e) == \A i \in DOMAIN v : Abs(v[i]) <= e
LexBetter(v, u, e) ==
  \E i \in DOMAIN v : /\ v[i] > u[i] + e
                      /\ \A j \in 1..(i - 1) : Abs(v[j] - u[j]) <= e
Dominates(v, u) == \A i \in DOMAIN v : v[i] > u[i]

RECURSIVE DotTo(_, _, _)
DotTo(v, b, n) == IF n = 0 THEN 0 ELSE v[n] * b[n] + DotTo(v, b, n - 1)
Dot(v, b) == DotTo(v, b, Len(v))

Keep(s, P(_)) == SelectSeq(s, P)
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Mark(s, P(_)) == [i \in DOMAIN s |-> IF P(s[i]) THEN [s[i] EXCEPT !.m = TRUE] ELSE s[i]]
Unmarked(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.m = FALSE]]
Count(s, P(_)) == Cardinality({i \in DOMAIN s : P(s[i])})
First(s, P(_)) == CHOOSE i \in DOMAIN s : P(s[i]) /\ \A j \in 1..(i - 1) : ~P(s[j])
Where(s, v, e) == {i \in DOMAIN s : Same(s[i].v, v, e)}
Bool(p) == IF p THEN 1 ELSE 0
Max(x, y) == IF x > y THEN x ELSE y

(* The best vectors at a belief point: greatest value, then                 *)
(* lexicographically greatest.                                              *)
BestValue(s, b) == LET d == {Dot(s[i].v, b) : i \in DOMAIN s} IN CHOOSE x \in d : \A y \in d : y <= x
Best(s, b) ==
  LET top == {i \in DOMAIN s : \A j \in DOMAIN s : Dot(s[j].v, b) <= Dot(s[i].v, b)}
  IN {i \in top : \A j \in top : ~LexBetter(s[j].v, s[i].v, 0)}

SameLists(s, u, e) == Len(s) = Len(u) /\ \A i \in DOMAIN s : Same(s[i].v, u[i].v, e)
Similar(s, u, e) == /\ Len(s) = Len(u)
                    /\ \A i \in DOMAIN s : \E j \in DOMAIN u : Same(s[i].v, u[j].v, e)
                    /\ \A j \in DOMAIN u : \E i \in DOMAIN s : Same(s[i].v, u[j].v, e)

Times(s, n) == Cardinality({i \in DOMAIN s : s[i] = n})
Permuted(s, u) == Len(s) = Len(u) /\ \A i \in DOMAIN s : Times(s, s[i]) = Times(u, s[i])
Ascending(s) == \A i \in 1..(Len(s) - 1) : ~LexBetter(s[i].v, s[i + 1].v, 0)

(* -------------------------------------------------------- preconditions  *)
AllWitnessed(s) == \A i \in DOMAIN s : s[i].w # 0
Enabled(S, o) ==
  LET s == S[o.l]
      u == S[Other(o.l)]
  IN CASE o.k \in {"mark", "witness", "extract"} -> o.i \in DOMAIN s
       [] o.k \in {"foreign"} -> o.i \in DOMAIN u
       [] o.k = "copynode" -> o.i \in DOMAIN u /\ u[o.i].w = 0
       [] o.k = "dupw" -> AllWitnessed(s)
       [] OTHER -> TRUE

(* ------------------------------------------------------------ outcomes   *)
(* The states and results an operation may have: a set of [s, r], where s   *)
(* gives both lists.  Only sorting is described by a condition (Allowed).   *)
Out(S, l, s, r) == [s |-> [S EXCEPT ![l] = s], r |-> r]
One(S, l, s, r) == {Out(S, l, s, r)}
Both(l, s, u, r) == {[s |-> [x \in {"A", "B"} |-> IF x = l THEN s ELSE u], r |-> r]}
Asked(S, r) == {[s |-> S, r |-> r]}
Tag(s, i) == s[i].t
Taken(S, l, is) == {Out(S, l, Without(S[l], i), Tag(S[l], i)) : i \in is}

Outcomes(S, o) ==
  LET l == o.l
      s == S[l]
      u == S[Other(l)]
      e == o.e
      v == o.v
  IN CASE o.k = "append" -> One(S, l, Append(s, Node(o.a, v, o.t)), o.t)
       [] o.k = "prepend" -> One(S, l, <<Node(o.a, v, o.t)>> \o s, o.t)
       [] o.k = "unique" -> IF Where(s, v, e) # {} THEN Asked(S, 0)
                            ELSE One(S, l, Append(s, Node(o.a, v, o.t)), o.t)
       [] o.k = "dequeue" -> IF s = <<>> THEN Asked(S, 0) ELSE One(S, l, Tail(s), s[1].t)
       [] o.k = "size" -> Asked(S, Len(s))
       [] o.k = "maxsize" -> Asked(S, Max(Len(s), Len(u)))
       [] o.k = "find" -> IF Where(s, v, e) = {} THEN Asked(S, 0)
                          ELSE {[s |-> S, r |-> s[i].t] : i \in Where(s, v, e)}
       [] o.k = "query" -> Asked(S, Bool(Where(s, v, e) # {}))
       [] o.k = "extractvec" -> IF Where(s, v, e) = {} THEN Asked(S, 0) ELSE Taken(S, l, Where(s, v, e))
       [] o.k = "removevec" -> IF Where(s, v, e) = {} THEN Asked(S, 0)
                               ELSE {[s |-> x.s, r |-> 1] : x \in Taken(S, l, Where(s, v, e))}
       [] o.k = "extract" -> One(S, l, Without(s, o.i), s[o.i].t)
       [] o.k = "foreign" -> Asked(S, 0)
       [] o.k = "mark" -> One(S, l, [s EXCEPT ![o.i].m = TRUE], 0)
       [] o.k = "clearmarks" -> One(S, l, Unmarked(s), 0)
       [] o.k = "markall" -> One(S, l, Mark(s, LAMBDA n : TRUE), 0)
       [] o.k = "unmarked" -> Asked(S, Count(s, LAMBDA n : ~n.m))
       [] o.k = "allmarked" -> Asked(S, Bool(\A i \in DOMAIN s : s[i].m))
       [] o.k = "findunmarked" -> IF \A i \in DOMAIN s : s[i].m THEN Asked(S, 0)
                                  ELSE Asked(S, s[First(s, LAMBDA n : ~n.m)].t)
       [] o.k = "extractunmarked" -> IF \A i \in DOMAIN s : s[i].m THEN Asked(S, 0)
                                     ELSE Taken(S, l, {First(s, LAMBDA n : ~n.m)})
       [] o.k = "markdominated" -> One(S, l, Mark(s, LAMBDA n : Dominates(v, n.v)),
                                       Count(s, LAMBDA n : ~n.m /\ Dominates(v, n.v)))
       [] o.k = "dominated" -> Asked(S, Bool(\E i \in DOMAIN s : Dominates(s[i].v, v)))
       [] o.k = "removedominated" -> One(S, l, Unmarked(Keep(s, LAMBDA n : ~Dominates(v, n.v))),
                                         Count(s, LAMBDA n : Dominates(v, n.v)))
       [] o.k = "removemarked" -> One(S, l, Keep(s, LAMBDA n : ~n.m), Count(s, LAMBDA n : n.m))
       [] o.k = "extractmarked" ->      \* and puts what was extracted at the end of the partner
            Both(l, Keep(s, LAMBDA n : ~n.m), u \o Unmarked(Keep(s, LAMBDA n : n.m)), Count(s, LAMBDA n : n.m))
       [] o.k = "best" -> IF s = <<>> THEN Asked(S, <<0, 0>>)
                          ELSE {[s |-> S, r |-> <<s[i].t, BestValue(s, v)>>] : i \in Best(s, v)}
       [] o.k = "bestover" ->           \* only if better than o.i (twice a value)
            IF s = <<>> \/ BestValue(s, v) <= o.i THEN Asked(S, <<0, o.i>>)
            ELSE {[s |-> S, r |-> <<s[i].t, BestValue(s, v)>>] : i \in Best(s, v)}
       [] o.k = "removebest" -> IF s = <<>> THEN Asked(S, 0) ELSE Taken(S, l, Best(s, v))
       [] o.k = "copy" -> Both(l, s, [i \in DOMAIN s |-> [s[i] EXCEPT !.w = 0]], 0)
       [] o.k = "dupw" -> Both(l, s, s, 0)
       [] o.k = "copynode" -> One(S, l, Append(s, [Node(u[o.i].a, u[o.i].v, o.t) EXCEPT !.m = FALSE]), o.t)
       [] o.k = "witness" -> One(S, l, [s EXCEPT ![o.i].w = o.a], 0)
       [] o.k = "union" -> Both(l, s \o u, <<>>, 0)
       [] o.k = "same" -> Asked(S, Bool(SameLists(s, u, e)))
       [] o.k = "similar" -> Asked(S, Bool(Similar(s, u, e)))
       [] o.k = "renumber" -> Asked(S, [i \in DOMAIN s |-> i - 1])
       [] o.k = "clear" -> One(S, l, <<>>, 0)
       [] o.k = "vsame" -> Asked(S, Bool(Same(v, o.u, e)))
       [] o.k = "vzero" -> Asked(S, Bool(Zero(v, e)))
       [] o.k = "vlex" -> Asked(S, Bool(LexBetter(v, o.u, e)))
       [] o.k = "vdom" -> Asked(S, Bool(Dominates(v, o.u)))
       [] o.k = "vcopy" -> Asked(S, v)
       [] OTHER -> {}

Allowed(S, o, s2, r) ==
  IF o.k = "sort" THEN /\ s2[Other(o.l)] = S[Other(o.l)]
                       /\ Permuted(S[o.l], s2[o.l])
                       /\ Ascending(s2[o.l])
  ELSE [s |-> s2, r |-> r] \in Outcomes(S, o)
=============================================================================

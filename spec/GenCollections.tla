--------------------------- MODULE GenCollections ---------------------------
(* All states of a pair of short lists and all operations on them: their    *)
(* laws are checked as invariants, and every transition is written out as   *)
(* the operations that lead to it, to be replayed on the program.           *)
EXTENDS Collections, TLC, Json, IOUtils

CONSTANTS MaxA, MaxB, Depth, Kinds, Vecs, Acts, Sorts

VARIABLES S, hist
vars == <<S, hist>>

Zeros == CHOOSE v \in Vecs : \A i \in DOMAIN v : v[i] = 0
Mk(k, l, a, v, i, e) == [k |-> k, l |-> l, a |-> a, v |-> v, t |-> Len(hist) + 1, i |-> i, e |-> e]
Lists == {"A", "B"}
Plain == {"dequeue", "size", "maxsize", "clearmarks", "markall", "unmarked", "allmarked", "findunmarked", "extractunmarked",
          "removemarked", "extractmarked", "copy", "dupw", "union", "renumber", "clear", "sort"}
WithVec == {"find", "query", "extractvec", "removevec"}
WithDom == {"markdominated", "dominated", "removedominated"}
Adding == {"append", "prepend", "unique"}
WithNode == {"mark", "extract", "foreign", "copynode"}
Compare == {"same", "similar"}
AtBelief == {"best", "removebest", "bestover"}
Beliefs == {<<2, 0>>, <<1, 1>>, <<0, 2>>}
Ops ==
  {Mk(k, l, 0, Zeros, 0, 0) : k \in Plain \cap Kinds, l \in Lists} \union
  {Mk(k, l, a, v, 0, 0) : k \in Adding \cap Kinds, l \in Lists, a \in Acts, v \in Vecs} \union
  {Mk(k, l, 0, v, 0, e) : k \in WithVec \cap Kinds, l \in Lists, v \in Vecs, e \in {0, 1}} \union
  {Mk(k, l, 0, v, 0, 0) : k \in WithDom \cap Kinds, l \in Lists, v \in Vecs} \union
  {Mk(k, l, 0, Zeros, i, 0) : k \in WithNode \cap Kinds, l \in Lists, i \in 1..MaxA} \union
  {Mk(k, l, w, Zeros, i, 0) : k \in {"witness"} \cap Kinds, l \in Lists, i \in 1..MaxA, w \in 1..2} \union
  {Mk(k, l, 0, Zeros, 0, e) : k \in Compare \cap Kinds, l \in Lists, e \in {0, 1}} \union
  {Mk(k, l, 0, b, 0, 0) : k \in AtBelief \cap Kinds, l \in Lists, b \in Beliefs}

Fits(s) == Len(s["A"]) <= MaxA /\ Len(s["B"]) <= MaxB
Seqs(s, n) == {x \in [1..n -> {s[i] : i \in DOMAIN s}] : Permuted(s, x) /\ Ascending(x)}
Results(o) == IF o.k = "sort" THEN {[s |-> [S EXCEPT ![o.l] = x], r |-> 0] : x \in Seqs(S[o.l], Len(S[o.l]))}
              ELSE Outcomes(S, o)

Init == S = [x \in Lists |-> <<>>] /\ hist = <<>>
Next ==
  /\ Len(hist) < Depth
  /\ \E o \in Ops :
       /\ Enabled(S, o)
       /\ PrintT("@@" \o ToJson([ops |-> Append(hist, o)]))
       /\ LET rs == Results(o)
              x == CHOOSE y \in rs : Len(y.s["A"]) >= 0   \* what the program may do differently is not followed further
          IN /\ Assert(rs # {}, <<"an operation without an outcome", o, S>>)
             /\ Fits(x.s)
             /\ S' = IF Cardinality(rs) = 1 THEN x.s ELSE S
             /\ hist' = IF Cardinality(rs) = 1 THEN Append(hist, o) ELSE hist
Spec == Init /\ [][Next]_vars

Anonymous(s) == [i \in DOMAIN s |-> [a |-> s[i].a, v |-> s[i].v, m |-> s[i].m, w |-> s[i].w]]
View == <<Anonymous(S["A"]), Anonymous(S["B"])>>

(* ---------------------------------------------------------------- laws   *)
Conserved ==     \* moving loses nothing and invents nothing
  \A l \in Lists : \A k \in {"union", "extractmarked"} :
    \A x \in Outcomes(S, [k |-> k, l |-> l, a |-> 0, v |-> Zeros, t |-> 0, i |-> 0, e |-> 0]) :
      Len(x.s["A"]) + Len(x.s["B"]) = Len(S["A"]) + Len(S["B"])
DominanceStrict == \A x \in Lists : \A i \in DOMAIN S[x] : ~Dominates(S[x][i].v, S[x][i].v)
BestIsBest == \A x \in Lists : \A b \in Beliefs : S[x] # <<>> => Best(S[x], b) # {}
SimilarSymmetric == \A e \in {0, 1} : Similar(S["A"], S["B"], e) = Similar(S["B"], S["A"], e)
SameThenSimilar == \A e \in {0, 1} : SameLists(S["A"], S["B"], e) => Similar(S["A"], S["B"], e)
SortExists == \A x \in Lists : Len(S[x]) <= 3 => Seqs(S[x], Len(S[x])) # {}
=============================================================================

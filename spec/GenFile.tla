------------------------------ MODULE GenFile ------------------------------
(* Families of small files, enumerated completely.  TLC reads each with     *)
(* PomdpFile.tla, checks that what the reader ends with is what the format's*)
(* rules say (stated independently below), and prints the file so that it   *)
(* can be given to the program.                                             *)
EXTENDS PomdpFile, Json
CONSTANT Family, Wide

I(n) == <<"int", ToString(n)>>
C == <<":", ":">>
S0 == <<"*", "*">>
W(x) == <<x, x>>
F(x) == <<"float", x>>

Cat2(a, b) == a \o b
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

Decl(k, n) == <<W(k), C, I(n)>>
Named(k, names) == <<W(k), C>> \o [i \in 1..Len(names) |-> <<"str", names[i]>>]
Disc == <<W("discount"), C, F("0.5")>>
Vals == <<W("values"), C, W("reward")>>
Pre(ns, na, no) == Flat(<<Disc, Vals, Decl("states", ns), Decl("actions", na), Decl("observations", no)>>)

TU == <<W("T"), C, S0, W("uniform")>>
OU == <<W("O"), C, S0, W("uniform")>>

Ref(n) == {I(i) : i \in 0..(n - 1)} \cup {S0}

RECURSIVE Colons(_)
Colons(refs) == IF refs = <<>> THEN <<>> ELSE <<C, Head(refs)>> \o Colons(Tail(refs))

(* Rewards: every pair of R statements with any references.  Entry p of     *)
(* statement k is 10 k + p, or 0 for the odd entries of a second statement. *)
Body(k, size, z) == [p \in 1..size |-> IF z /\ p % 2 = 1 THEN I(0) ELSE I(10 * k + p)]
ARef(na) == IF na = 1 THEN {I(0)} ELSE Ref(na)
RForms(k, na, zs) ==
  {<<W("R")>> \o Colons(r) \o Body(k, 1, z) : r \in ARef(na) \X Ref(2) \X Ref(2) \X Ref(2), z \in zs}
  \cup {<<W("R")>> \o Colons(r) \o Body(k, 2, z) : r \in ARef(na) \X Ref(2) \X Ref(2), z \in zs}
  \cup {<<W("R")>> \o Colons(r) \o Body(k, 4, z) : r \in ARef(na) \X Ref(2), z \in zs}

RFiles == LET na == IF Wide THEN 2 ELSE 1
          IN {Flat(<<Pre(2, na, 2), TU, OU, a, b>>) : a \in RForms(1, na, {FALSE}), b \in RForms(2, na, BOOLEAN)}

(* Transitions and observations: pairs of statements after uniform ones.    *)
RowBody == {<<I(1), I(0)>>, <<F("0.25"), F("0.75")>>, <<W("uniform")>>}
TForms ==
  {<<W("T")>> \o Colons(r) \o b : r \in Ref(2) \X Ref(2), b \in RowBody \cup {<<W("reset")>>}}
  \cup {<<W("T")>> \o Colons(<<r>>) \o b : r \in Ref(2),
           b \in {<<W("uniform")>>, <<W("identity")>>, <<F("0.1"), F("0.9"), I(1), I(0)>>}}
  \cup (IF Wide THEN {<<W("T")>> \o Colons(r) \o <<b>> : r \in Ref(2) \X Ref(2) \X Ref(2), b \in {I(0), I(1)}} ELSE {})
OForms ==
  {<<W("O")>> \o Colons(r) \o b : r \in Ref(2) \X Ref(2), b \in RowBody}
  \cup {<<W("O")>> \o Colons(<<r>>) \o b : r \in Ref(2),
           b \in {<<W("uniform")>>, <<F("0.1"), F("0.9"), I(1), I(0)>>}}
  \cup (IF Wide THEN {<<W("O")>> \o Colons(r) \o <<b>> : r \in Ref(2) \X Ref(2) \X Ref(2), b \in {I(0), I(1)}} ELSE {})
St == <<W("start"), C, F("0.125"), F("0.875")>>
TFiles == {Flat(<<Pre(2, 2, 1), St, OU, TU, a, b>>) : a \in TForms, b \in TForms}
OFiles == {Flat(<<Pre(2, 2, 2), TU, OU, a, b>>) : a \in OForms, b \in OForms}

(* Start beliefs over three states.                                         *)
SRef == {I(0), I(1), I(2), I(3), S0, <<"str", "a">>, <<"str", "c">>, <<"str", "x">>}
SLists == {<<x>> : x \in SRef} \cup {<<x, y>> : x \in SRef, y \in SRef}
          \cup (IF Wide THEN {<<x, y, z>> : x \in SRef, y \in SRef, z \in SRef} ELSE {})
SNum == {I(0), I(1), F("0.5"), F("0.25")}
StartForms ==
  {<<>>, <<W("start"), C, W("uniform")>>, <<W("start"), C, W("reset")>>, <<W("start"), C>>}
  \cup {<<W("start"), C, x>> : x \in SRef}
  \cup {<<W("start"), W(k), C>> \o l : k \in {"include", "exclude"}, l \in SLists}
  \cup {<<W("start"), C>> \o v : v \in SNum \X SNum \X SNum}
  \cup {<<W("start"), C>> \o v : v \in SNum \X SNum}
  \cup {<<W("start"), C>> \o v : v \in {<<F("0.25"), F("0.25"), F("0.25"), F("0.25")>>, <<I(1), I(0), I(0), I(0)>>}}
StartFiles ==
  {Flat(<<Disc, Vals, Named("states", <<"a", "b", "c">>), Decl("actions", 2), Decl("observations", 1), f,
          <<W("T"), C, I(0), W("uniform")>>, <<W("T"), C, I(1), C, S0, W("reset")>>, OU>>) : f \in StartForms}

(* Preambles: every selection and order of the declarations.                *)
PreDecls == {Disc, Vals, Named("states", <<"u", "v">>), Decl("actions", 1), Decl("observations", 2)}
Orders == UNION {{f \in [1..n -> PreDecls] : \A i, j \in 1..n : f[i] = f[j] => i = j} :
                   n \in IF Wide THEN 0..5 ELSE 4..5}
PreFiles == {Flat(<<Flat(f), TU, OU, <<W("R"), C, S0, C, <<"str", "v">>, C, S0, C, S0, I(7)>>>>) : f \in Orders}

Files == CASE Family = "R" -> RFiles
           [] Family = "T" -> TFiles
           [] Family = "O" -> OFiles
           [] Family = "start" -> StartFiles
           [] OTHER -> PreFiles

VARIABLES toks, i, s, hist
vars == <<toks, i, s, hist>>

Init == toks \in Files /\ i = 1 /\ s = Blank /\ hist = <<>>

Step == /\ s.ph \in {"preamble", "start", "params"}
        /\ LET g == TLCEval(ReadOne(s, toks, i))
           IN /\ s' = g.s
              /\ i' = g.i
              /\ hist' = IF s.ph = "params" /\ g.s.ph = "params" THEN Append(hist, <<i, g.i - 1>>) ELSE hist
        /\ UNCHANGED toks
Show == /\ s.ph \in {"done", "bad"}
        /\ PrintT("@@" \o ToJson([toks |-> toks, ph |-> s.ph]))
        /\ s' = [s EXCEPT !.ph = "shown"]
        /\ UNCHANGED <<toks, i, hist>>
Next == Step \/ Show
Spec == Init /\ [][Next]_vars

(* The rules of the format, stated without the reader: the value of a table *)
(* entry is given by the last statement that mentions it.                   *)
Covers(h, x, k) ==      \* statement h (first and last token) covers entry x of table k
  /\ toks[h[1]][1] = k
  /\ \A y \in 1..Len(x) :
       LET at == h[1] + 2 * y
           kind == IF y = 1 THEN "actions" ELSE IF (k = "O" /\ y = 3) \/ y = 4 THEN "observations" ELSE "states"
       IN IF at <= h[2] /\ toks[at - 1] = C
          THEN \/ toks[at] = S0
               \/ toks[at] = I(x[y])
               \/ s.names[kind] # <<>> /\ toks[at] = <<"str", s.names[kind][x[y] + 1]>>
          ELSE TRUE
NRef(h) == Cardinality({y \in (h[1] + 1)..h[2] : toks[y] = C})
Value(h, x, k) ==
  LET m == NRef(h)
      first == h[1] + 2 * m + 1
      w == toks[first][1]
      width == CASE k = "O" \/ k = "R" -> s.n["observations"] [] OTHER -> s.n["states"]
      off == CASE m = Len(x) -> 0
               [] m = Len(x) - 1 -> x[Len(x)]
               [] OTHER -> x[Len(x) - 1] * width + x[Len(x)]
  IN CASE w = "uniform" -> RDiv(1, width)
       [] w = "identity" -> IF x[2] = x[3] THEN R(1) ELSE R(0)
       [] w = "reset" -> s.b[x[3]]
       [] OTHER -> R(toks[first + off][2])
LastWord(x, k) ==
  LET hs == {y \in DOMAIN hist : Covers(hist[y], x, k)}
  IN IF hs = {} THEN R(0) ELSE Value(hist[CHOOSE y \in hs : \A z \in hs : z <= y], x, k)
TablesRight ==
  s.ph = "done" => /\ \A x \in DOMAIN s.T : s.T[x] = LastWord(x, "T")
                   /\ \A x \in DOMAIN s.O : s.O[x] = LastWord(x, "O")
                   /\ \A x \in DOMAIN s.R : s.R[x] = LastWord(x, "R")
Distributions ==
  s.ph = "done" => /\ RSum([x \in 1..s.n["states"] |-> s.b[x - 1]]) = R(1)
                   /\ \A q \in RowSums(s) : q = R(1)
                   /\ \A x \in DOMAIN s.T : Prob(s.T[x])
                   /\ \A x \in DOMAIN s.O : Prob(s.O[x])
                   /\ \A x \in DOMAIN s.b : Prob(s.b[x])
=============================================================================

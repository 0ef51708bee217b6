------------------------------- MODULE Options -------------------------------
(* How pomdp-solve and pomdp-tools come by their options: the command line, *)
(* a configuration file (-f), the table of options with their types, ranges *)
(* and defaults.  All text is strings; c is a string of one character.      *)
EXTENDS Rat, Sequences, Integers, FiniteSets, TLC

At(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))

RECURSIVE Search(_, _, _)
(* First position from i on with a character in set, or Len(s) + 1.         *)
Search(s, i, set) == IF i > Len(s) THEN i ELSE IF At(s, i) \in set THEN i ELSE Search(s, i + 1, set)
RECURSIVE Span(_, _, _)
Span(s, i, set) == IF i > Len(s) THEN i ELSE IF At(s, i) \in set THEN Span(s, i + 1, set) ELSE i

MaxWord == 1023
MaxParams == 256

-----------------------------------------------------------------------------
(* The option table.                                                        *)

IntOf(n, lo, d) == [n |-> n, t |-> "int", lo |-> lo, hi |-> "2147483647", vals |-> {}, d |-> d]
Dbl(n, hi, d) == [n |-> n, t |-> "double", lo |-> "0", hi |-> hi, vals |-> {}, d |-> d]
Str(n, d)     == [n |-> n, t |-> "string", lo |-> "0", hi |-> "0", vals |-> {}, d |-> d]
Enum(n, v, d) == [n |-> n, t |-> "enum", lo |-> "0", hi |-> "0", vals |-> v, d |-> d]
Flag(n, d)    == Enum(n, {"false", "true"}, d)
Inf == "1e400"

Purges == {"none", "domonly", "normal_prune", "epsilon_prune"}
Contexts == {"context", "lp", "global", "timing", "stats", "cmdline", "main", "alpha", "proj", "crosssum", "agenda",
             "enum", "twopass", "linsup", "witness", "incprune", "lpinterface", "vertexenum", "mdp", "pomdp", "param",
             "parsimonious", "region", "approx_mcgs", "zlz_speedup", "finite_grid", "mcgs"}

Solve == {
  Str("stdout", ""), Flag("save_penultimate", "false"), Str("rand_seed", ""), Str("f", ""),
  Flag("stat_summary", "false"), IntOf("time_limit", "1", "0"), IntOf("memory_limit", "1", "0"),
  IntOf("mcgs_prune_freq", "1", "100"), Enum("inc_prune", {"normal", "restricted_region", "generalized"}, "normal"),
  Flag("fg_save", "false"), Enum("enum_purge", Purges, "normal_prune"),
  Enum("fg_type", {"simplex", "pairwise", "search", "initial"}, "initial"),
  IntOf("mcgs_traj_iter_count", "1", "1"), IntOf("mcgs_num_traj", "1", "1000"), IntOf("mcgs_traj_length", "1", "100"),
  Enum("method", {"enum", "twopass", "linsup", "witness", "incprune", "grid", "mcgs"}, "incprune"),
  IntOf("fg_points", "1", "10000"), Enum("fg_purge", Purges, "normal_prune"),
  Dbl("prune_epsilon", Inf, "1e-9"), Dbl("fg_epsilon", Inf, "1e-9"), Dbl("lp_epsilon", Inf, "1e-9"),
  Flag("dom_check", "true"), Enum("q_purge", Purges, "normal_prune"), IntOf("alg_rand", "0", "0"),
  Dbl("epsilon", Inf, "1e-9"), Enum("proj_purge", Purges, "normal_prune"), IntOf("prune_rand", "0", "0"),
  Flag("witness_points", "false"), Enum("verbose", Contexts, "context"),
  IntOf("history_length", "1", "5"), Flag("save_all", "false"), Str("o", "solution"),
  Dbl("end_epsilon", Inf, "0.001"), Dbl("start_epsilon", Inf, "0.1"), Dbl("stop_delta", Inf, "1e-9"), Str("pomdp", ""),
  Enum("stop_criteria", {"exact", "weak", "bellman"}, "weak"), Str("terminal_values", ""),
  Dbl("discount", "1", "-1"), IntOf("history_delta", "1", "3"), Dbl("epsilon_adjust", Inf, "10"),
  Enum("vi_variation", {"normal", "zlz", "adjustable_epsilon", "fixed_soln_size"}, "normal"),
  IntOf("horizon", "1", "0"), Dbl("max_soln_size", Inf, "0")}

Tools == {
  Str("alpha1", ""), Str("alpha2", ""), Str("belief", ""), Str("f", ""), Str("pomdp", ""),
  Enum("tool", {"update_beliefs", "compare_alphas", "map_beliefs", "pg_isomorphism", "purge_alphas", "sort_alphas",
                "pg_eval", "pg_relink", "belief_alpha_compare", "none"}, "none"),
  Dbl("epsilon", Inf, "1e-9"), IntOf("states", "1", "0"), Str("pg1", ""), Str("pg2", ""), Str("o", "toolsoln"),
  IntOf("obs", "1", "0")}

-----------------------------------------------------------------------------
(* Values.                                                                  *)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Blank == {" ", "\t", "\n", "\r", "\f"}
AfterSign(s, i) == IF i <= Len(s) /\ At(s, i) \in {"+", "-"} THEN i + 1 ELSE i
Start(s) == Span(s, 1, Blank)

IsInt(s) == LET i == AfterSign(s, Start(s)) IN i <= Len(s) /\ Span(s, i, Digits) = Len(s) + 1

(* [sign] digits [. digits] [e [sign] digits] with a digit in the mantissa. *)
IsNumber(s) ==
  LET i == AfterSign(s, Start(s))
      j == Span(s, i, Digits)
      k == IF j <= Len(s) /\ At(s, j) = "." THEN Span(s, j + 1, Digits) ELSE j
      mant == (j - i) + (IF k > j THEN k - j - 1 ELSE 0)
      m == IF k <= Len(s) /\ At(s, k) \in {"e", "E"} THEN AfterSign(s, k + 1) ELSE k
      e == IF m > k THEN Span(s, m, Digits) ELSE k
  IN mant > 0 /\ e = Len(s) + 1 /\ (m > k => e > m)

Plain(s) == LET t == From(s, Start(s)) IN IF Len(t) > 0 /\ At(t, 1) = "+" THEN From(t, 2) ELSE t

ValueOk(o, v) ==
  CASE o.t = "string" -> TRUE
    [] o.t = "enum" -> v \in o.vals
    [] o.t = "int" -> IsInt(v) /\ RLeq(o.lo, Plain(v)) /\ RLeq(Plain(v), o.hi)
    [] o.t = "double" -> IsNumber(v) /\ RLeq(o.lo, Plain(v)) /\ (o.hi = Inf \/ RLeq(Plain(v), o.hi))

-----------------------------------------------------------------------------
(* The configuration file: lines "name = value", empty lines, comments from *)
(* # to the end of the line.  Names and values are words.                   *)

Ends == {"\n", "\r"}
WordEnd == {" ", "\t", "="}

(* What line s, without comment, sets: <<>> nothing, <<name, value>>, or    *)
(* <<"">> for an error.                                                     *)
LineOf(s) ==
  LET a == Span(s, 1, {" ", "\t"})
      b == Search(s, a, WordEnd)
      e == Span(s, b, {" ", "\t"})
      v == Span(s, e + 1, {" ", "\t"})
      w == Search(s, v, WordEnd)
  IN IF a > Len(s) THEN <<>>
     ELSE IF b = a \/ e > Len(s) \/ At(s, e) # "=" THEN <<"">>
     ELSE IF Span(s, w, {" ", "\t"}) <= Len(s) THEN <<"">>
     ELSE IF b - a > MaxWord \/ w - v > MaxWord THEN <<"">>
     ELSE <<SubSeq(s, a, b - 1), SubSeq(s, v, w - 1)>>

RECURSIVE LinesOf(_, _)
LinesOf(s, i) ==
  LET e == Search(s, i, Ends)
      h == Search(s, i, Ends \cup {"#"})
      one == LineOf(SubSeq(s, i, h - 1))
      rest == IF e > Len(s) THEN <<>> ELSE LinesOf(s, e + 1)
  IN IF one = <<>> THEN rest ELSE <<one>> \o rest

ConfigOk(ls) == /\ \A i \in 1..Len(ls) : Len(ls[i]) = 2
                /\ \A i, j \in 1..Len(ls) : i # j => ls[i][1] # ls[j][1]
                /\ Len(ls) <= MaxParams

-----------------------------------------------------------------------------
(* The command line: "-name value" where the value does not start with -,   *)
(* else "-name" is a flag, which means the value true.  Other words are     *)
(* arguments, of which there are none with a meaning.                       *)

Dashed(s) == Len(s) > 0 /\ At(s, 1) = "-"

RECURSIVE Given(_, _)
Given(args, i) ==
  IF i > Len(args) THEN [opts |-> <<>>, flags |-> <<>>, words |-> 0]
  ELSE IF ~Dashed(args[i]) THEN LET r == Given(args, i + 1) IN [r EXCEPT !.words = @ + 1]
  ELSE IF i < Len(args) /\ ~Dashed(args[i + 1])
  THEN LET r == Given(args, i + 2) IN [r EXCEPT !.opts = <<<<From(args[i], 2), args[i + 1]>>>> \o @]
  ELSE LET r == Given(args, i + 1) IN [r EXCEPT !.flags = <<From(args[i], 2)>> \o @]

GivenOk(args, g) ==
  /\ \A i, j \in 1..Len(g.opts) : i # j => g.opts[i][1] # g.opts[j][1]
  /\ \A i \in 1..Len(args) : Len(args[i]) <= MaxWord
  /\ Len(g.flags) <= 100 /\ Len(g.opts) <= 256 /\ g.words <= 256

(* The last entry for a name decides: configuration file, then options,     *)
(* then flags.                                                              *)
All(ls, g) == ls \o g.opts \o [i \in 1..Len(g.flags) |-> <<g.flags[i], "true">>]
Last(es, n) == LET at == {i \in 1..Len(es) : es[i][1] = n}
               IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : j <= i

(* config is "" when no file is named; cfgread tells whether it was there.  *)
Outcome(table, args, config, cfgread) ==
  LET g == TLCEval(Given(args, 1))
      f == {i \in 1..Len(g.opts) : g.opts[i][1] = "f"}
      ls == TLCEval(IF f = {} \/ ~cfgread THEN <<>> ELSE LinesOf(config, 1))
      es == TLCEval(All(ls, g))
      names == {o.n : o \in table}
      ok == /\ GivenOk(args, g)
            /\ \A i \in 1..Len(g.flags) : g.flags[i] # "h"
            /\ f # {} => cfgread /\ ConfigOk(ls)
            /\ \A i \in 1..Len(es) : es[i][1] \in names
            /\ \A o \in table : LET k == Last(es, o.n) IN k > 0 => ValueOk(o, es[k][2])
  IN [ok |-> ok,
      val |-> IF ok THEN [n \in names |-> LET o == CHOOSE x \in table : x.n = n
                                              k == Last(es, n)
                                          IN IF k > 0 THEN es[k][2] ELSE o.d]
              ELSE <<>>]

(* The default prefix of the output files comes from the name of the model. *)
RECURSIVE LastDot(_, _)
LastDot(s, i) == IF i = 0 THEN 0 ELSE IF At(s, i) = "." THEN i ELSE LastDot(s, i - 1)
Prefix(o, pomdp, pid) ==
  IF o # "solution" THEN o
  ELSE LET d == LastDot(pomdp, Len(pomdp)) IN IF d > 1 THEN SubSeq(pomdp, 1, d - 1) \o "-" \o pid ELSE o
=============================================================================

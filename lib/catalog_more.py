PARSE = "the model in memory after reading a file (a harness calls readMDP); pomdp-solve's exit status and files"
PTRUST = ("Trusted: TLC, the rational override, the Python renderer of tokens to text, a C harness that calls readMDP "
          "and dumps the tables. The enumerated families are complete; beyond them files are random. ")
PFILES = ["src/mdp/parser.y", "src/mdp/parser.c", "src/mdp/scanner.l", "src/mdp/mdp.c", "src/mdp/parse_hash.c",
          "src/mdp/sparse-matrix.c", "src/mdp/imm-reward.c", "src/mdp/decision-tree.c"]

prop("C07", "A POMDP file means the model its statements describe",
     "For every accepted file, the transition, observation and reward tables, sizes, discount and value type the "
     "program works with are those the statements describe: statements apply in file order, a later one overrides "
     "earlier ones for exactly the entries it names (entries, rows, matrices, uniform, identity, reset, wildcards, "
     "names or numbers alike), entries never mentioned are 0, zeroes count as values, and layout, comments and number "
     "spelling do not matter. The expected immediate rewards follow from these tables.",
     ["inputs"],
     "all POMDP files: any preamble order, names or counts, any sequence of T, O and R statements in every form, any "
     "spelling of numbers, any layout and comments",
     "The tests parse one file and look at nothing of its tables; the meaning of overriding statements depends on the "
     "whole sequence.",
     PFILES,
     [("grammar actions, enterMatrix", "src/mdp/parser.y"), ("getImmediateReward", "src/mdp/imm-reward.c"),
      ("addEntryToRow", "src/mdp/sparse-matrix.c"), ("convertMatrices", "src/mdp/mdp.c")],
     PTRUST, [PARSE])
prop("C08", "Ill-formed POMDP files are rejected and well-formed ones accepted",
     "A file is rejected, with a message, a failure status and no output files, exactly if it breaks a rule of the "
     "format: syntax or illegal characters, missing declarations, sizes below 1, repeated names, unknown names or "
     "numbers out of range, discounts or probabilities outside [0,1], too few or too many entries, misplaced reset or "
     "identity, transition or observation rows that do not add up to 1 (within 1e-5), impossible start beliefs, or no "
     "observations. It never crashes.",
     ["inputs"],
     "all files made of the format's tokens, valid and invalid (deleted, repeated, swapped and replaced tokens and "
     "statements, truncations, illegal characters)",
     "The tests give the parser one valid file.",
     PFILES + ["src/mdp/parse_err.c", "src/pomdp.c"],
     [("error productions and checks", "src/mdp/parser.y"), ("checkProbs", "src/mdp/parser.y"),
      ("checkMatrix", "src/mdp/parser.y"), ("initPomdp", "src/pomdp.c")],
     PTRUST + "Files that give a declaration twice, or rows within 1e-8 of the tolerance, are left open.", [PARSE])
prop("C09", "The start belief is the one the file asks for",
     "The start belief is uniform without a start statement or with start: uniform; the given probabilities for "
     "start: with numbers; certainty of a state for start: with its name; uniform over exactly the listed states for "
     "start include: and over the others for start exclude:, where * lists every state. The reset rows of T equal it.",
     ["inputs"],
     "all start statements over any number of states, names or numbers, repeated and wildcard entries",
     "The tests never look at the start belief; the example files in the tests have no start statement.",
     ["src/mdp/parser.y", "src/mdp/parser.c", "src/mdp/mdp.c"],
     [("start_state productions", "src/mdp/parser.y"), ("endStartStates", "src/mdp/parser.y"),
      ("enterStartState", "src/mdp/parser.y")],
     PTRUST, [PARSE])
prop("C10", "The finite grid method is exact at its grid points and a sound bound elsewhere",
     "The saved grid is the one asked for: simplex the corners, pairwise also the midpoints of pairs of corners; "
     "search and initial grow from their root beliefs by beliefs that can follow a point already in the grid, hold no "
     "two points within fg_epsilon, never more than fg_points (roots aside), and with fewer they are closed under "
     "following beliefs. Each epoch's vectors are values of real plans, so nowhere too high, and reach the best "
     "one-step value at every grid point; the reported error is the largest change at a grid point and decides "
     "stopping as in the exact methods.",
     ["inputs", "configurations"],
     "all models, start beliefs, grid types and sizes, purging options, starting value functions, epochs",
     "No test runs the grid method.",
     ["src/finite-grid.c", "src/belief.c", "src/neighbor.c", "src/alpha.c", "src/mdp/mdp.c"],
     [("initFiniteGrid, searchAndAddBeliefStates", "src/finite-grid.c"), ("improveFiniteGrid", "src/finite-grid.c"),
      ("FG_computeError", "src/finite-grid.c"), ("transformBeliefState", "src/mdp/mdp.c")],
     TRUST + "Models up to 4 states; grid points are saved with 25 digits, compared within 1e-8.",
     [SOLVE, "the .belief file written with fg_save"])

RUNFILES = ["src/pomdp-solve.c", "src/signal-handler.c", "src/alpha.c", "src/pg.c", "src/stats.c", "src/timing.c"]
SHIM = "a preloaded library that writes files through small buffers and raises a signal at a chosen operation"
RTRUST = ("Trusted: TLC, the preloaded library, Python code that compares files with those of an undisturbed run. "
          "Run.tla is checked completely for small horizons, the real runs at sampled operations. ")
prop("C11", "A killed run leaves the last value function behind",
     "Whenever the program is killed, once it has reported epoch n >= 2 the backup file or the final solution file holds "
     "the complete value function of epoch n or n-1; with -save_all the files of every reported epoch are complete.",
     ["crashes", "inputs"],
     "every point of a run (each opening, writing, closing, renaming and removing of a file), all models and methods",
     "No test kills the program; only a few moments of a run matter, while a file is being rewritten.",
     RUNFILES, [("solvePomdp", "src/pomdp-solve.c"), ("handleSaveAll", "src/pomdp-solve.c"),
                ("saveAlphaList", "src/alpha.c")],
     RTRUST + "A killed process, not a failing disk.", [SHIM])
prop("C12", "Interrupts end a run with its current epoch, time limits end it at once",
     "After SIGINT the program finishes the epoch in progress and then ends as a run with that horizon does: the same "
     "final files, reported as solution, no backup file left; before the first epoch it ends with the starting values. "
     "When -time_limit seconds of computing time are over, it says so and ends at once, with no further epoch and no "
     "solution reported, the files left as if it had been killed.",
     ["schedules", "inputs"],
     "an interrupt or alarm at any file operation or memory allocation of a run, all models and methods",
     "No test sends a signal.",
     RUNFILES, [("solvePomdp", "src/pomdp-solve.c"), ("signalHandlerSIGINT", "src/signal-handler.c"),
                ("signalHandlerSIGVTALRM", "src/signal-handler.c"), ("setUpIntervalTimer", "src/signal-handler.c")],
     RTRUST + "Liveness (an interrupted run ends) is checked on the specification and by running.", [SHIM])

TOOLS = "command line of pomdp-tools; its report on the standard output or in the file named by -o"
TTRUST = ("Trusted: TLC, the rational override, the Python reader of the reports. Small cases are enumerated "
          "completely, larger ones are random; ties and thresholds are decided on numbers doubles hold exactly. ")
prop("C13", "Sorting and purging a value function file keeps its value function",
     "pomdp-tools -tool sort_alphas writes exactly the vectors of the file, with their actions, in lexicographic order. "
     "-tool purge_alphas writes, in that order, some of the file's vectors that together have the same value at every "
     "belief and none of which is useless, and reports the numbers of vectors read and written. For a missing file or "
     "one that ends early or holds other text they write nothing.",
     ["inputs"],
     "all value function files: any number of states and vectors, duplicates, ties, dominated and barely useful vectors",
     "No test runs these tools.",
     ["src/pomdp-tools-main.c", "src/utils.c", "src/alpha.c", "src/parsimonious.c", "src/region.c"],
     [("UTIL_purgeAlphaFile, UTIL_sortAlphaFile", "src/utils.c"), ("sortAlphaList", "src/alpha.c"), ("readAlphaList", "src/alpha.c"),
      ("purgeAlphaList", "src/parsimonious.c")],
     TTRUST + "Complete: every list of up to 3 vectors over {0,1,2}^2.", [TOOLS])
prop("C14", "Reports comparing value functions and beliefs state the facts",
     "compare_alphas names, for each vector of the first file, the vectors of the second within -epsilon (largest "
     "difference of a component), nearest first, or the nearest when there are none, their differences and whether the "
     "nearest has another action. map_beliefs names for each belief the best vectors and their value, and for each "
     "vector the beliefs where it is the only best or one of several. belief_alpha_compare gives these for both files, "
     "the difference at each belief, the largest, and the beliefs where they occur. Unreadable files give no report.",
     ["inputs"],
     "all pairs of value function files, belief files (up to 100 beliefs) and epsilons, with ties and duplicates",
     "No test runs these tools.",
     ["src/pomdp-tools-main.c", "src/utils.c", "src/alpha.c", "src/belief.c"],
     [("UTIL_compareAlphaFiles", "src/utils.c"), ("UTIL_mapBeliefList", "src/utils.c"),
      ("UTIL_compareAlphaFilesUsingBeliefs", "src/utils.c"), ("readBeliefList", "src/belief.c")],
     TTRUST + "Up to 9 vectors and 25 beliefs; every pair of lists of up to 2 vectors over {0,1}^2.", [TOOLS])
prop("C15", "Policy graph evaluation and relinking are right",
     "pg_eval reads a POMDP and a policy graph (nodes in any order, '-' or 'X' for impossible observations) and prints "
     "the discounted value (for a cost problem the cost) of following the graph from each node and state, and the best "
     "node (least cost or most reward) for the start belief with its value. pg_relink replaces each link to a vector of "
     "the second file by the number of the nearest vector of the first (the first of equals) and leaves the rest "
     "alone; with as many nodes as vectors in the first file, else it writes nothing.",
     ["inputs"],
     "all models (rewards and costs, discounts below 1), policy graphs, and pairs of value function files",
     "No test runs these tools.",
     ["src/pomdp-tools-main.c", "src/pg-eval.c", "src/pg.c", "src/utils.c", "src/laspack-util.c"],
     [("PGE_evaluate", "src/pg-eval.c"), ("UTIL_relinkPolicyGraph", "src/utils.c"), ("PG_read", "src/pg.c")],
     TTRUST + "Values are checked against the graph's linear equations within the two printed digits and the "
     "iterative solver's 1e-5; discounts up to 0.95, up to 6 nodes.", [TOOLS])
prop("C16", "The belief tracker answers every line with the next belief",
     "pomdp-tools -tool update_beliefs shows the start belief, then answers each input line of an action number and an "
     "observation number with the belief that follows by Bayes' rule, to six digits, before it waits for the next line. "
     "A line (of which the first 1022 characters count) that is not two numbers in range is answered with [] and the "
     "unchanged belief; after an impossible "
     "observation the belief is all zeroes from then on. A line whose first word is exit, or the end of the input, "
     "ends it.",
     ["inputs", "histories"],
     "all models, start beliefs and sequences of input lines, well-formed or not, of any length",
     "No test runs the tracker.",
     ["src/pomdp-tools-main.c", "src/utils.c", "src/mdp/mdp.c"],
     [("UTIL_doBeliefUpdates", "src/utils.c"), ("transformBeliefState", "src/mdp/mdp.c")],
     TTRUST + "Every line of up to 5 characters over {0,1,-,blank,x}; sessions of up to 25 lines on random models, "
     "some held interactively over a pipe.",
     ["standard input and output of pomdp-tools -tool update_beliefs"])
prop("C17", "Options and configuration files are obeyed or refused",
     "pomdp-solve and pomdp-tools accept exactly the documented options: known names, each given once, with a value of "
     "their kind and range; anything else, in a command line or in a line of the -f file, is refused with the usage "
     "text, status 1 and no output. Values come from the command line, else the file, else the default, and are those "
     "the program reports and works with. File lines are name = value, with # comments, blank lines and any blanks, up "
     "to and including an unterminated last line. Words up to the limits are taken whole; longer ones are refused.",
     ["inputs", "configurations"],
     "all sequences of command line words and all texts of a configuration file",
     "The tests use four options and no configuration file.",
     ["src/params.c", "src/pomdp-solve-options.c", "src/pomdp-tools-options.c", "src/program-options.c",
      "src/command-line.c", "src/config-file.c", "src/associative-array.c"],
     [("PO_getEnumOption and the other getters", "src/program-options.c"), ("PO_create", "src/program-options.c"),
      ("CL_parseCommandLine", "src/command-line.c"), ("CF_fscanf", "src/config-file.c"), ("tempOptsToParamConversion", "src/params.c")],
     "Trusted: TLC, the rational override, the Python reader of the parameters the program prints when it starts. Every "
     "short text over small alphabets of words is tried, longer ones are random. Only starts are judged here; what the "
     "options do is judged by the other properties. For pomdp-tools only acceptance is judged.",
     ["command line and configuration file of pomdp-solve and pomdp-tools; the parameters printed at the start"])

prop("C19", "Approximate pruning loses no more than its epsilon",
     "With epsilon pruning of the final, per-action or projected sets (-enum_purge, -q_purge, -proj_purge "
     "epsilon_prune) or a coarse -epsilon, every saved vector is still the value of its action followed by some choice "
     "of one previous vector per observation, so the value is nowhere above the exact backup; and at every belief it "
     "is below the exact backup by no more than the epsilons of the prunings applied: one for the set of an action or "
     "of all, one per cross-sum of incremental pruning, one per observation for projections.",
     ["inputs", "configurations"],
     "all models, starting value functions, exact methods with approximate pruning, and precisions from 1e-6 to "
     "larger than the values",
     "No test prunes approximately.",
     ["src/parsimonious.c", "src/region.c", "src/projection.c", "src/inc-prune.c", "src/enumeration.c", "src/two-pass.c",
      "src/witness.c", "src/pomdp-solve.c"],
     [("epsilonPrune", "src/parsimonious.c"), ("purgeProjections", "src/projection.c"), ("setSolvePrecision", "src/pomdp-solve.c")],
     TRUST + "The bound is the Loss operator of ValueIteration.tla. Same sizes as C01.", [SOLVE])
prop("C20", "The variations of value iteration end at the optimum they promise",
     "Whatever the -vi_variation (normal or zlz), method and stopping criterion, a run that ends by itself leaves a value "
     "function that another exact backup raises nowhere by more than half of -stop_delta times (1-discount), and two such "
     "runs of a model by the bellman or exact criteria differ nowhere by more than -stop_delta. "
     "The zlz speedup between two epochs never lowers the value function. adjustable_epsilon starts at -start_epsilon and divides "
     "it by -epsilon_adjust after each epoch where the last -history_length value functions differ by at most -history_delta "
     "in size, until -end_epsilon is reached, and each epoch loses no more than its epsilon.",
     ["inputs", "configurations", "histories"],
     "all models with discounts below 1, starting value functions, exact methods, criteria, deltas and schedules",
     "The tests run plain value iteration on one model.",
     ["src/pomdp-solve.c", "src/zlz_speedup.c", "src/stats.c", "src/params.c", "src/alpha.c"],
     [("meetStopCriteria", "src/pomdp-solve.c"), ("ZLZ_improve", "src/zlz_speedup.c"),
      ("doAdjustableEpsilonVariation", "src/pomdp-solve.c"), ("startViEpoch", "src/pomdp-solve.c")],
     TRUST + "Up to 3 states and 25 vectors for the optimum. fixed_soln_size is not implemented by the program.", [SOLVE])

prop("C18", "Runs are reproducible and reports are true and change nothing",
     "The value function, policy graph and epoch figures of pomdp-solve depend only on the model and the options that "
     "matter: with the same -rand_seed (or without -alg_rand and -prune_rand) every run gives the same, whatever file "
     "prefix, -stat_summary, -save_all, -save_penultimate, -fg_save, -verbose or -stdout it has and whether options "
     "come from a file. Exactly the files asked for are written. With -stdout the whole report goes to the file. Reported times "
     "add up, and the summary has a row per epoch repeating its size, error and time, with the sums as totals.",
     ["inputs", "configurations"],
     "all models, starting value functions, methods, seeds, variations and combinations of reporting options, and all "
     "courses of the processor clock",
     "The tests run each command once and look at one number.",
     ["src/random.c", "src/params.c", "src/stats.c", "src/timing.c", "src/pomdp-solve.c", "src/common.c", "src/parsimonious.c",
      "src/finite-grid.c"],
     [("setRandomSeedFromString", "src/random.c"), ("reportEpochSummary", "src/stats.c"), ("reportTimes", "src/timing.c"),
      ("handleSaveAll", "src/pomdp-solve.c")],
     "Trusted: TLC, the rational override, the Python reader of reports, a preloaded clock that jumps ahead at every "
     "look. Groups of 8 runs per model; coarse pruning makes draws matter. Times are judged by how they relate only.",
     ["report, output files and standard output of pomdp-solve"])

prop("C21", "Lists of vectors and belief points behave as the sequences they are",
     "The lists that value functions, projections and agendas are kept in behave as sequences: adding puts a node exactly where "
     "asked, removing or extracting takes exactly the nodes meant (first in line, equal within the tolerance, dominated, "
     "marked, unmarked, best at a belief point) and leaves the others as they were and in order, queries and comparisons "
     "answer for the whole list and change nothing, sorting permutes into lexicographic order, copies share no memory, uniting "
     "lists moves every node, and the count and the ends stay right after every sequence of operations.",
     ["operation sequences", "inputs"],
     "all sequences of list operations within their preconditions, and all vectors, marks, witness points and tolerances",
     "No test calls a list operation.",
     ["src/alpha.c", "src/double-vector.c"],
     [("extractMarkedAlphaList", "src/alpha.c"), ("extractAlphaNode", "src/alpha.c"), ("bestVectorValuePrimed", "src/alpha.c"),
      ("sortAlphaList", "src/alpha.c"), ("DV_unionTwoLists", "src/double-vector.c")],
     "Trusted: TLC, a C harness that calls the functions and prints the lists. Every transition of pairs of lists of up to 3 "
     "and 2 nodes within 4 steps (5 thorough), and random courses of up to 40 operations with 1 to 3 states.",
     ["results of the list functions and the lists after each call"])
prop("C22", "Sparse matrices, option tables and index lists hold exactly what was stored",
     "A sparse matrix holds for each entry the value last set plus what was accumulated since, zero if none; its rows list each "
     "column once, in order, and closing it changes no entry or row sum. A table from names to values answers with the value "
     "last put for exactly that name, tells new from replaced, and refuses new names only when full, keeping what it has. An "
     "index list keeps every index in order, however long it grows.",
     ["operation sequences", "inputs"],
     "all sequences of operations, sizes, entries, names and values",
     "The tests read one model; none removes or replaces entries directly.",
     ["src/mdp/sparse-matrix.c", "src/associative-array.c", "src/index-list.c"],
     [("addEntryToRow", "src/mdp/sparse-matrix.c"), ("removeRowNode", "src/mdp/sparse-matrix.c"),
      ("transformIMatrix", "src/mdp/sparse-matrix.c"), ("AA_put", "src/associative-array.c"), ("IL_resize", "src/index-list.c")],
     "Trusted: TLC, a C harness that calls the functions and reads everything back. All courses of 3 operations (4 thorough) on a row "
     "of 3 columns and on a table of 2 entries, and random courses of up to 40 operations.",
     ["results of the functions and everything read back after each call"])
prop("C23", "Linear programs are solved, and witness points found, exactly when they exist",
     "The linear program interface, over the bundled lp_solve, answers for every program with rows of all senses, bounds and "
     "either direction: an optimal point and its value when there is one, that there is none when it is infeasible or unbounded. "
     "The search for a witness point of a vector over a list of others finds a belief point where the vector is better by more "
     "than the tolerance whenever there is one, with the largest margin, and reports none only when no belief point has one.",
     ["inputs"],
     "all linear programs and all vectors, lists and tolerances, at the sizes and magnitudes the bundled solver is meant for",
     "The tests solve one model and solve no linear program directly.",
     ["src/lp-interface.c", "src/region.c", "src/lp-solve/solve.c", "src/lp-solve/lpkit.c"],
     [("LP_loadLpSolveLP", "src/lp-interface.c"), ("LP_solveLP", "src/lp-interface.c"), ("findRegionPoint", "src/region.c"),
      ("solvelp", "src/lp-solve/solve.c")],
     "Trusted: TLC, a C harness that calls the functions. Every answer is compared with an exact certificate (primal and dual) "
     "that LP.tla checks; LPLaws.tla model checks that certificates decide. Up to 6 variables and 9 rows, 7 states and 14 vectors.",
     ["outcome, point and value of the linear program and region routines"])
prop("C24", "A run continued from a saved value function is the run that was never cut",
     "A run started from a value function another run left (final, per-epoch, penultimate or backup file, after its horizon, an "
     "interrupt or being killed) goes on exactly as the other would have: its k-th epoch is epoch j+k of the uncut run, with the "
     "same value function and reported error, and it stops at the same epoch of the whole, with the same result.",
     ["inputs", "histories", "configurations"],
     "all models, exact methods and options without randomisation, starting value functions, stopping criteria, horizons and points of cutting",
     "No test starts from a saved value function.",
     ["src/pomdp-solve.c", "src/alpha.c"],
     [("readAlphaList", "src/alpha.c"), ("writeAlphaList", "src/alpha.c"), ("solvePomdp", "src/pomdp-solve.c"),
      ("saveBackup", "src/pomdp-solve.c")],
     TRUST + "Continue.tla is model checked for every step function and criterion over few values; in the code a run is "
     "continued from up to 5 of its files. Runs whose stopping rounding decides are left out.", [SOLVE])

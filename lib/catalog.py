"""The one list of properties: `python3 lib/catalog.py` writes properties.jsonl and MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, note=note, observe=observe, state=state))


SOLVE = "command line of pomdp-solve; the .alpha and .pg files it writes"
TRUST = ("Trusted: TLC, the exact-rational Java override (itself checked by RatLaws.tla), the Python driver that "
         "records runs. Exact rational comparison with a tolerance of 1e-6 of the value scale. ")

prop("C01", "Every epoch is an exact dynamic programming backup",
     "With each exact method (enum, twopass, witness, incprune) and each of its pruning and randomisation "
     "variations, the vectors saved after an epoch attain at every belief state exactly the best one-step value "
     "(expected immediate reward plus discounted expected value of the previous vectors), neither less nor more, up "
     "to the solver's numeric precision. Every saved vector is the value of its action followed by some choice of "
     "one previous vector per observation.",
     ["inputs", "configurations"],
     "all POMDP models (any numbers of states, actions and observations including one, zero probabilities, any "
     "discount, rewards of any sign, costs), all starting value functions, all exact methods and their options, all "
     "epochs, all beliefs",
     "The tests solve one model (tiger.95) with one method and only count the final vectors; they compare no value.",
     ["src/pomdp-solve.c", "src/projection.c", "src/cross-sum.c", "src/enumeration.c", "src/two-pass.c",
      "src/witness.c", "src/inc-prune.c", "src/parsimonious.c", "src/region.c", "src/lp-interface.c"],
     [("improveV", "src/pomdp-solve.c"), ("makeProjection", "src/projection.c"),
      ("crossSum", "src/cross-sum.c"), ("normalPrune", "src/parsimonious.c")],
     TRUST + "Bounded: models up to 6 states / 6 actions / 5 observations, a few epochs each, random inputs; "
     "completeness is exact (region vertices) for 2 and 3 states and at witness beliefs found by LP above that.",
     [SOLVE])
prop("C02", "Saved value functions are parsimonious",
     "With an exact method and default pruning, no vector of a saved value function is useless: each one is strictly "
     "better than all others at some belief, so there are no duplicates and no dominated vectors.",
     ["inputs", "configurations"],
     "all POMDP models, starting value functions, exact methods with full pruning, epochs",
     "The tests check one vector count on one model; any useless vector kept, or needed one dropped, elsewhere is "
     "unseen.",
     ["src/parsimonious.c", "src/region.c", "src/witness.c", "src/two-pass.c", "src/inc-prune.c"],
     [("purgeAlphaList", "src/parsimonious.c"), ("findRegionPoint", "src/region.c")],
     TRUST + "A vector is called useless only on an exact certificate (no belief with a margin of 1e-11).", [SOLVE])
prop("C03", "All exact solution methods and variations give the same solution",
     "For one model, starting value function and number of epochs, every exact method with every variation of its "
     "options ends with the same set of vectors up to numeric precision, apart from vectors whose advantage over the "
     "rest is within that precision.",
     ["inputs", "configurations"],
     "all POMDP models and pairs of exact-method configurations",
     "The tests run one method on one model.",
     ["src/enumeration.c", "src/two-pass.c", "src/witness.c", "src/inc-prune.c", "src/pomdp-solve.c"],
     [("improveV dispatch", "src/pomdp-solve.c"), ("inc-prune variations", "src/inc-prune.c")],
     TRUST + "At design level ExactBackup.tla shows with TLC that enumeration, incremental pruning (normal and "
     "generalised), two-pass and witness reach the same set, for every choice order, on a family of small models; "
     "at code level recorded runs of all methods are compared by TraceAgree.tla.", [SOLVE])
prop("C04", "The policy graph describes the value function it is written with",
     "Every policy graph has one node per saved vector, in the same order and numbered from 0, with that vector's "
     "action and one entry per observation: '-' exactly for observations that are impossible after the action, "
     "otherwise the number of a vector of the previous value function. Following the entries gives exactly the "
     "vector's value.",
     ["inputs", "configurations"],
     "all POMDP models, starting value functions, exact methods, epochs",
     "No test reads a policy graph.",
     ["src/pg.c", "src/alpha.c", "src/common.c", "src/pomdp-solve.c"],
     [("APG_writePolicyGraph", "src/pg.c"), ("relinkObsSources", "src/common.c"),
      ("obs_source", "src/alpha.h")],
     TRUST, [SOLVE])
prop("C05", "Value iteration stops exactly when its criterion is met",
     "The error reported for an epoch is the criterion's: for weak the largest distance of a new vector to its "
     "nearest old one (shown as inf beyond stop_delta), for bellman the largest difference of the two value functions "
     "over all beliefs, for exact 0 or inf as the sets are equal or not. A run stops before its horizon at, and only "
     "at, the first epoch whose error is at most stop_delta*(1-discount)/(2*discount), for exact at the first epoch "
     "that repeats the vectors (for weak it need not stop while the error exceeds stop_delta).",
     ["inputs", "configurations", "histories"],
     "all models (rewards and costs), discounts including 0 and 1, starting value functions, stop_delta values",
     "The tests let one model converge under the default criterion and do not look at the errors.",
     ["src/pomdp-solve.c", "src/common.c"],
     [("meetStopCriteria", "src/pomdp-solve.c"), ("weakBound", "src/pomdp-solve.c"),
      ("bellmanError", "src/common.c")],
     TRUST + "The bellman error is recomputed exactly for up to 3 states.",
     ["the per-epoch report line; number of epochs"])
prop("C06", "Horizon, per-epoch, penultimate and final files tell one consistent run",
     "A run with a horizon of n makes at most n epochs; each epoch is reported once with its number and its number "
     "of vectors, and with save_all leaves numbered files, sorted lexicographically. The final files equal those of "
     "the last epoch, the penultimate file (only with that option, only after two epochs) those of the one before, "
     "and the temporary backup file is gone.",
     ["inputs", "configurations", "histories"],
     "all models, methods, horizons, starting value functions, and saving options",
     "The tests count the vectors in the final file only.",
     ["src/pomdp-solve.c", "src/alpha.c", "src/stats.c", "src/main.c"],
     [("solvePomdp loop", "src/pomdp-solve.c"), ("handleSaveAll", "src/pomdp-solve.c"),
      ("sortAlphaList", "src/alpha.c")],
     TRUST, [SOLVE])

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalog_more.py")).read()) \
    if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "catalog_more.py")) else None


def main():
    done = set()
    for n in sorted(os.listdir(os.path.join(V, "lib", "checks"))):
        t = open(os.path.join(V, "lib", "checks", n)).read() if n.endswith(".py") else ""
        if "CHECKS = {" in t:
            import re
            done |= set(re.findall(r'"([A-Z]\d+)":', t[t.index("CHECKS = {"):]))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                     observe_at=p["observe"], hook_needed=None)
            if p["state"]:
                a["state"] = p["state"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                    quantifier=dict(over=p["over"], text=p["qtext"]),
                                    why_tests_cant=p["why"], anchors=a)) + "\n")
    m = dict(version=1, setup_cmd="./setup",
             checks=[dict(property=p["id"], quick_cmd="./check %s" % p["id"],
                          thorough_cmd="./check %s --tier thorough" % p["id"],
                          technique="TLA+ specification checked with TLC; recorded executions validated against it",
                          level="model_checking", level_note=p["note"]) for p in P if p["id"] in done],
             not_applicable=[dict(property=p["id"], reason="its check is not built yet") for p in P
                             if p["id"] not in done])
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(m["checks"]), "checks")


if __name__ == "__main__":
    main()

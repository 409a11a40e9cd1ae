#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; both outputs are committed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALG = "pymoo/core/algorithm.py"
P = []


def prop(id, title, statement, over, q, why, files, mech, state=None, observe=None, hook=None, level="exploration", note="",
         technique="deterministic simulation with fault injection"):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, state=state or [],
                  observe=observe or [], hook=hook, level=level, note=note, technique=technique))


prop("C01", "A seed determines the run",
     "Two runs of the same algorithm configuration on the same problem with the same seed evaluate the same designs in the same "
     "order and report the same populations, optima and results, bit for bit. Nothing outside the seed matters: operating-system "
     "entropy, the state of global random generators, the clock, string hashing, what ran earlier in the process and how the "
     "process is otherwise used between iterations. The same holds for seeded samplings, operators, survivals and reference "
     "directions used on their own.",
     ["configurations", "schedules", "inputs"],
     "every algorithm, operator configuration, problem, seed and every ambient state of the process",
     "Tests run a few default configurations twice in one process, where unseeded sources and leaks across runs agree by accident; "
     "the golden tests fix one configuration per algorithm.",
     [ALG, "pymoo/util/__init__.py", "pymoo/core/operator.py", "pymoo/util/randomized_argsort.py", "pymoo/algorithms"],
     [("one generator per run created from the seed and handed to every operator", "Algorithm.setup / default_random_state"),
      ("tie breaking with the run's generator", "randomized_argsort, tournament selections")],
     [("random_state", "the run's generator", "Algorithm")], ["evaluated rows", "population, optimum, counters per iteration", "result object"],
     note="560 quick scenarios over all 43 algorithms: reference leg vs a leg in another process with other hash seed, entropy, "
          "clock, ambient generators, earlier runs and interference between iterations")
prop("C02", "A checkpoint resumes the run exactly",
     "An algorithm object saved between two iterations (deep copy, pickle, dill, cloudpickle) and restored, possibly in another "
     "process after a crash, continues exactly as the uninterrupted run would have: same designs, populations, archive, counters and "
     "result. A state that cannot be saved is refused with an error; it is never restored into something that silently behaves "
     "differently, and continuing the copy leaves the original untouched.",
     ["crash_points", "configurations", "inputs"],
     "every algorithm, iteration boundary, serialisation and number of crashes",
     "Tests checkpoint one or two algorithms at one fixed iteration and mostly check that resuming works at all.",
     [ALG, "pymoo/core/population.py", "pymoo/util/archive.py", "pymoo/core/individual.py", "pymoo/termination"],
     [("whole state in the algorithm object", "Algorithm.__getstate__, loopwise algorithms keep generators"),
      ("termination state travels with it", "Termination objects")],
     observe=["everything C01 observes, after the restore"], level="fault_enumeration",
     note="crash after chosen iterations, restore in a fresh process, compare with the uninterrupted run; refusals are accepted only as errors")
prop("C03", "Parallel evaluation is transparent",
     "Whatever workers evaluate the designs, however many, in whatever order they finish, and even if workers die and their tasks are "
     "retried, the run is the same as with serial evaluation: every design gets the values computed for it and the results are "
     "identical. An error raised by the evaluation of a design reaches the caller.",
     ["schedules", "fault_sequences", "configurations"],
     "every completion order, worker count, batch size, worker death and every runner (starmap, joblib, Dask, Ray)",
     "Tests use real thread pools whose completion order is whatever the machine does, with trivially fast objectives, and skip most runners.",
     ["pymoo/parallelization", "pymoo/core/problem.py", "pymoo/core/evaluator.py"],
     [("results are put back in submission order", "runner classes"), ("element-wise evaluation maps one task per design", "Problem._evaluate_elementwise")],
     observe=["values stored with each design", "the run's trace"],
     note="simulated worker pools behind the four real runner classes")
prop("C04", "A failing evaluation leaves the run resumable",
     "When evaluating designs raises an error, in any call, at any design, the error reaches the caller and the run's state "
     "is as it was before: no counter moved, no half-evaluated design counts as evaluated, nothing in population or "
     "archive changed. Evaluating the same designs again then continues exactly like a run that never failed.",
     ["fault_sequences", "crash_points", "configurations"],
     "every algorithm, failing evaluation call, failing row and number of consecutive failures",
     "No test injects an evaluation error and retries.",
     ["pymoo/core/evaluator.py", "pymoo/core/problem.py", ALG, "pymoo/core/individual.py"],
     [("counter moves after the evaluation", "Evaluator.eval"), ("values assigned after the problem returned", "Evaluator._eval")],
     observe=["the run's trace after the retry", "counters", "evaluated flags"], level="fault_enumeration",
     note="errors injected at seeded rows of seeded calls, retry by ask-and-tell")
prop("C05", "Every design is evaluated once and counted",
     "At every iteration boundary and in the result, the evaluation counter equals the number of designs that were handed to the "
     "problem; it never decreases. No design in the population or the optimum is without an evaluation, and designs that were handed "
     "in with their values (warm start) are not evaluated again, while those without values are.",
     ["configurations", "inputs", "histories"],
     "every algorithm, configuration, warm start and evaluation path",
     "Tests check the counter for a handful of algorithms at the end of a run.",
     ["pymoo/core/evaluator.py", "pymoo/core/initialization.py", ALG, "pymoo/core/infill.py"],
     [("skips evaluated individuals and counts the rest", "Evaluator.eval"), ("initial populations keep their values", "Initialization.do")],
     observe=["rows seen by the problem vs. the counter"],
     note="the problem records every row; compared after each iteration, cold and warm starts, pools")
prop("C06", "All ways of driving an algorithm agree",
     "One call that runs to the end, stepping iteration by iteration, asking for designs and telling their values (evaluated by the "
     "library or by the user), switching between these from iteration to iteration, pausing and looking at intermediate results, and "
     "evaluating row by row or in batches: for the same seed all of them evaluate the same designs and end in the same result.",
     ["schedules", "configurations", "histories"],
     "every algorithm and every sequence of driving calls",
     "Tests compare ask-and-tell with minimize for one or two algorithms.",
     [ALG, "pymoo/optimize.py", "pymoo/core/evaluator.py", "pymoo/core/problem.py"],
     [("all interfaces share infill and advance", "Algorithm.next / ask / tell / run"), ("vectorised and element-wise evaluation", "Problem.evaluate")],
     observe=["trace per iteration and final result"],
     note="three interfaces per scenario, same seed, compared step by step")
prop("C07", "Runs do not influence each other",
     "Runs that are interleaved step by step, nested inside each other's objective function, or executed by concurrently scheduled "
     "threads behave exactly as if each had run alone. A run changes neither the objects handed to it (problem, sampling, "
     "initial population, termination, algorithm settings handed to a single call) nor the process-wide random generators.",
     ["schedules", "configurations", "histories"],
     "every interleaving of steps and every thread schedule at function-call granularity, every combination of algorithms",
     "Tests run one optimisation at a time.",
     ["pymoo/optimize.py", ALG, "pymoo/algorithms", "pymoo/core/problem.py", "pymoo/util/__init__.py"],
     [("the call copies algorithm and termination", "minimize"), ("operators created as default arguments are stateless", "constructors")],
     observe=["trace of each run vs. its solo run", "snapshots of inputs and global generators"],
     note="seeded scheduler decides which run steps next; threads are preempted at seeded function-call boundaries under a baton")
prop("C08", "Watching a run does not change it",
     "Recording the history, printing progress with any output, callbacks, and asking for the result in mid-run change neither the "
     "designs evaluated nor the result. Each recorded history entry shows the state of its iteration, unaffected by later iterations "
     "and by whether other entries are used.",
     ["configurations", "histories", "schedules"],
     "every algorithm with every combination of observers",
     "Tests switch the observers on for single algorithms and do not compare with the unobserved run.",
     [ALG, "pymoo/util/display", "pymoo/core/callback.py", "pymoo/indicators"],
     [("deep copy per iteration", "Algorithm._post_advance"), ("outputs compute from copies", "pymoo/util/display")],
     observe=["trace with and without observers", "history entries at creation vs. at the end"],
     note="unobserved leg vs. observed leg")
prop("C09", "Budgets end every run",
     "A run with a budget of iterations, evaluations or time ends by itself: after exactly the number of iterations asked for (unless another "
     "criterion says stop), with at most one batch of evaluations beyond an evaluation budget, and with at most the iteration under "
     "way once the time is used up. Nobody iterates after termination was reported.",
     ["configurations", "inputs", "schedules"],
     "every algorithm, budget, problem (plateaus, infeasible, single point) and every passage of time",
     "Tests use small fixed budgets on friendly problems; time budgets depend on the machine.",
     ["pymoo/termination", ALG, "pymoo/algorithms"],
     [("counters compared with limits after each iteration", "MaximumGenerationTermination, MaximumFunctionCallTermination, TimeBasedTermination"),
      ("termination accumulates in collections", "TerminationCollection")],
     observe=["iterations, evaluations and simulated time at the end"],
     note="virtual time; hang = budget of simulated steps exceeded")
prop("C10", "Clock faults never break a run",
     "A wall clock that jumps forward or backward, stands still or runs fast affects at most when a time-limited run stops: no crash, no change in "
     "what is evaluated before the stop; a time-limited run ends at the first iteration boundary at which the clock says that its limit is used up, "
     "neither before nor after. A run without a time limit is not affected at all.",
     ["fault_sequences", "schedules", "configurations"],
     "every sequence of clock jumps at any clock read",
     "No test changes the clock.",
     ["pymoo/termination/max_time.py", ALG, "pymoo/util/display"],
     [("elapsed time against the limit", "TimeBasedTermination"), ("start and end time of the run", "Algorithm.result")],
     observe=["exceptions", "trace vs. a run under a well-behaved clock"], level="fault_enumeration",
     note="jumps at seeded clock reads of the virtual clock")
prop("C11", "Reported values belong to the reported designs",
     "The objective values, constraint values and constraint violations reported in the result, the population, the optimum and the archive are those of the "
     "reported designs: re-evaluating a design reproduces them. The optimum contains a feasible design whenever the final population "
     "contains one, only mutually non-dominated designs when there are several objectives (OmniOptimizer: in its loose sense of dominance), and the success flag and the "
     "returned arrays agree with it.",
     ["configurations", "inputs", "fault_sequences"],
     "every algorithm, problem, constraint mix and iteration",
     "Tests look at objective values of final results for default configurations, never at each design of each iteration.",
     [ALG, "pymoo/core/individual.py", "pymoo/core/evaluator.py", "pymoo/util/optimum.py", "pymoo/core/result.py"],
     [("values live in the individual", "Individual"), ("optimum filtered from the population", "filter_optimum, _set_optimum")],
     observe=["population, optimum, result at each iteration vs. independent re-evaluation"],
     note="every individual at every boundary is compared with the pure model of the problem")
prop("C12", "Elitist algorithms never lose their best",
     "For elitist single-objective algorithms (and those that remember the best design found) the best constraint violation, and then the best feasible "
     "objective value, never get worse from one iteration to the next, and the reported optimum is at least as good as every design evaluated so far. "
     "(Not meant: SRES and ISRES, which rank stochastically, DIRECT, and the epsilon-constraint wrapper, which change what counts as better on purpose.)",
     ["configurations", "inputs", "histories"],
     "every elitist algorithm, configuration, problem, constraint mix and seed",
     "Tests check final quality against loose thresholds on a few problems.",
     ["pymoo/core/survival.py", "pymoo/core/replacement.py", "pymoo/algorithms/soo", "pymoo/util/optimum.py"],
     [("survival sorts by constraint violation and objective", "FitnessSurvival"), ("replacement only if better", "ImprovementReplacement")],
     observe=["optimum per iteration vs. all recorded evaluations"],
     note="shadow model of the best row evaluated so far")
prop("C13", "The archive keeps the non-dominated set",
     "Between iterations an archive without a size limit holds exactly the non-dominated feasible designs (the best ones in "
     "single-objective runs; those with the least constraint violation as long as nothing is feasible) of all designs the algorithm handed over to be "
     "evaluated; with a limit it never exceeds it and, each time it had to be truncated, has exactly the size it is to be truncated to and holds only members of that set. "
     "Archives never contain duplicates of a design, never change a design's values, and adding to one never changes the object added to; the result contains the final one.",
     ["histories", "inputs", "configurations"],
     "every sequence of batches, sizes, ties, duplicates and infeasible designs",
     "Tests add one batch to an archive.",
     ["pymoo/util/archive.py", ALG],
     [("archive add filters and truncates", "Archive.add")],
     observe=["archive after each iteration / batch vs. reference model"],
     note="runs of all algorithms and direct histories of batches against an executable reference model")
prop("C14", "Only valid designs are ever evaluated",
     "Every design handed to the problem lies in the declared search space: within bounds, integers integral, binaries boolean, permutations "
     "complete, choices from the options. This holds for every value the random generator may deliver, including the "
     "extremes of its range, for every operator, sampling, repair and algorithm.",
     ["inputs", "configurations", "fault_sequences"],
     "every algorithm and operator, variable type, bounds and every sequence of random draws",
     "Tests sample random draws; the ends of the distributions have probability zero in practice.",
     ["pymoo/operators", "pymoo/core/repair.py", "pymoo/core/mixed.py", "pymoo/algorithms", "pymoo/core/infill.py"],
     [("repairs after crossover and mutation", "repair_clamp, bounds repairs"), ("rounding and type repair", "pymoo/operators/repair")],
     observe=["every row handed to the problem"], level="fault_enumeration",
     note="adversarial generator: legal but extreme draws injected behind numpy's generator interface")
prop("C15", "The data cache never serves broken data",
     "Files fetched from the remote data store are either absent or complete: after any sequence of network errors, short reads, "
     "full disks, crashes at any point, power loss and concurrent processes, what is loaded from the cache equals the "
     "remote file, and once the faults stop a load succeeds.",
     ["crash_points", "fault_sequences", "schedules"],
     "every crash point, network and disk fault, and interleaving of processes that load",
     "Tests download nothing offline and never crash in the middle.",
     ["pymoo/util/remote.py"],
     [("download to a temporary name, then rename", "Remote._download")],
     observe=["content of the cache directory", "loaded bytes"], level="fault_enumeration",
     note="virtual file system with volatile and durable state, scripted HTTP server")
prop("C16", "Duplicate elimination eliminates duplicates",
     "With duplicate elimination on, no batch of new designs contains a design twice or one that equals a current population member, up to the "
     "tolerance of the criterion; a design is discarded only if it equals another one; if no new designs can be found within the allowed number of "
     "attempts the algorithm says so by ending instead of looping forever, and it does not give up earlier.",
     ["inputs", "configurations"],
     "every genetic algorithm, variable type, operator (including ones that change nothing) and random draw",
     "Tests check single elimination calls.",
     ["pymoo/core/duplicate.py", "pymoo/core/infill.py", "pymoo/core/mating.py"],
     [("infill loop discards duplicates", "InfillCriterion.do")],
     observe=["new designs of each iteration vs. population"],
     note="tiny discrete spaces, no-op operators, adversarial draws")
prop("C17", "Survival selects, it does not invent",
     "After every iteration the population has the configured size and consists only of designs that were in the previous "
     "population or among the new designs, none of them twice (in MOEA/D one design may serve several sub-problems; in DE, PSO and NRBO a copy of a "
     "member never replaces another member). With the feasibility-first constraint handling a feasible design is never displaced by an infeasible one, and where "
     "parents and offspring compete for the places no design survives while one that dominates it (or violates the constraints less) is thrown away.",
     ["inputs", "configurations", "histories"],
     "every algorithm with a fixed population size, configuration, problem and batch size",
     "Tests check sizes after single survival calls.",
     ["pymoo/core/survival.py", "pymoo/algorithms", "pymoo/operators/survival"],
     [("survival returns a subset of its input", "Survival.do")],
     observe=["identity of individuals before and after each iteration"],
     note="bookkeeping of individuals by identity at every boundary")
prop("C18", "Callbacks and outputs see every iteration once",
     "Callbacks, displays and history are served exactly once per iteration, in order, with the state of that iteration: "
     "initialisation first, then each iteration, finally the end. An error in a callback, in the display or in recording the history reaches the caller, and the run "
     "goes on afterwards as if the error had not happened: nothing is repeated, skipped or evaluated differently.",
     ["histories", "fault_sequences", "configurations"],
     "every algorithm, termination and position of a callback error",
     "Tests count callback calls for one algorithm.",
     [ALG, "pymoo/core/callback.py", "pymoo/util/display"],
     [("post-advance hook", "Algorithm._post_advance"), ("initialise / update / notify protocol", "Callback")],
     observe=["sequence of calls with iteration numbers"],
     note="reference protocol automaton")
prop("C19", "Changing environments leave no stale values",
     "For problems whose objectives change over time: once the re-evaluated samples of an algorithm show a change, no design of its population "
     "keeps values from before, whenever the change happens and even if an evaluation fails on the way; if the environment changes only between "
     "iterations every iteration ends with current values, and once it stops changing a population settles on them. Every re-evaluation is "
     "counted, and a test problem's reported front and values are those of its current time.",
    ["schedules", "fault_sequences", "configurations"],
     "every time and number of environment changes, every dynamic algorithm",
     "Tests use one schedule of changes fixed by a callback.",
     ["pymoo/algorithms/moo/dnsga2.py", "pymoo/algorithms/moo/kgb.py", "pymoo/problems/dynamic"],
     [("sampled re-evaluation detects changes", "DNSGA2._infill / KGB._advance")],
     observe=["population values vs. the environment's time"], level="fault_enumeration",
     note="environment changes at seeded boundaries and rows")
prop("C20", "Tolerance terminations stop when and only when they should",
     "A run with tolerance criteria stops exactly at the iteration at which a straightforward reading of the criterion (window, "
     "period, tolerance, limits, any or all of several criteria) says so, never before and never later, and once terminated stays terminated.",
     ["histories", "inputs", "configurations"],
     "every history of designs and objective values, every window, period and tolerance",
     "Tests check that a few runs stop.",
     ["pymoo/termination"],
     [("sliding window of differences", "DeltaToleranceTermination, RobustTermination")],
     observe=["progress and stop iteration vs. reference model"],
     note="scripted histories and real runs against an executable reference model")
prop("C21", "Valid problems never crash an algorithm",
     "On a valid problem, however degenerate (plateaus, the same objective values everywhere, an objective that is constant or a copy "
     "of another, values of wildly different magnitude, infinite values, no feasible design at all, a variable fixed by its bounds, "
     "bounds of extreme size, a single variable) no algorithm raises an error, loops forever, ends without an optimum, or reports "
     "undefined values or designs outside the search space.",
     ["inputs", "configurations"],
     "every algorithm, configuration with a usual population size, way of driving the run, archive and termination criterion, on every such problem",
     "Tests use friendly problems, where ranges are never zero, fronts are never single points and ties never happen.",
     ["pymoo/algorithms", "pymoo/operators", "pymoo/util", "pymoo/termination"],
     [("guards against empty sets, zero ranges and ties", "survivals, normalization, reference-direction association, distances"),
      ("bounded retries when no new design can be found", "InfillCriterion, Initialization")],
     observe=["exceptions, hangs, missing optimum, NaN and invalid designs in populations and results"],
     note="degenerate problems injected under seeded configurations, ways of driving, archives and criteria")

prop("C22", "Derived problems report what their definition says",
     "A problem derived from another one (automatic or complex-step differentiation, constraints turned into an objective, a penalty or "
     "taken from bounds, rescaling to the unit box, decomposition to a single objective, and nestings of these) reports for every batch "
     "exactly the values and derivatives its definition gives from the wrapped problem. It does so whoever uses it, in whatever order, "
     "from whichever thread, and after whatever evaluation failed. Using it changes neither the wrapped problem nor what others evaluate meanwhile.",
     ["schedules", "fault_sequences", "inputs"],
     "every nesting of wrappers, batch, requested outputs, client, thread interleaving, worker completion order and failing evaluation",
     "Tests evaluate one wrapper with one batch in one thread and never after a failure.",
     ["pymoo/gradient", "pymoo/constraints", "pymoo/problems/zero_to_one.py", "pymoo/problems/multi_to_single.py", "pymoo/core/meta.py"],
     [("delegation to the wrapped problem", "Meta and its subclasses"), ("the backend is chosen for the evaluation only", "pymoo/gradient/__init__.py")],
     [("backend of the numeric toolbox", "which library elementary functions dispatch to", "pymoo/gradient/__init__.py")],
     ["F, G, H, dF, dG, dH of every batch", "wrapped problem before and after"],
     note="several clients under a seeded thread scheduler, simulated worker pools and failing evaluations, against definitions with known derivatives")
prop("C23", "Values stay with the individual they were given to",
     "Whatever the sequence of operations (creating, setting, reading, evaluating all or some outputs, slicing, merging, copying, "
     "resetting, saving and restoring, evaluations that fail), an individual holds exactly the values last given to it and never "
     "those of another; constraint violation and feasibility are those of its current constraint values. Deep and restored copies "
     "are independent of their originals. The evaluator evaluates exactly the designs that lack a requested value, and counts exactly those.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of operations on individuals, populations and evaluators",
     "Tests call single operations on fresh objects; the caches and shared references matter only after longer histories.",
     ["pymoo/core/individual.py", "pymoo/core/population.py", "pymoo/core/evaluator.py"],
     [("which outputs are known", "Individual.evaluated"), ("violation computed on demand and forgotten when constraints change", "Individual.CV / G / H setters"),
      ("only individuals lacking a value are evaluated", "Evaluator.eval")],
     [("evaluated", "outputs an individual has", "Individual"), ("n_eval", "evaluations counted", "Evaluator")],
     ["every attribute of every individual after every operation", "designs the problem was asked for"],
     note="random operation histories with failing evaluations and crash/restore against a small reference model")
prop("C24", "Tuning: a setting of hyper-parameters has one value",
     "The value reported for a setting of hyper-parameters is the one of runs configured by hand with that setting and the same seeds, "
     "however often and in whatever order, thread or nesting it is evaluated and after whatever run failed. Evaluating a setting changes "
     "neither the algorithm being tuned nor the value of any other setting.",
     ["schedules", "histories", "fault_sequences", "configurations"],
     "every algorithm with parameters, setting, number of runs and seeds, order, interleaving and failing inner run",
     "The one test evaluates a single tuning run and looks at nothing but that it ends.",
     ["pymoo/algorithms/hyperparameters.py", "pymoo/core/parameters.py"],
     [("every setting is applied to a copy of its own", "HyperparameterProblem"), ("parameters are collected and set by name", "pymoo/core/parameters.py")],
     observe=["value of each setting", "the algorithm before and after"],
     note="settings evaluated repeatedly, shuffled, concurrently and after failures; reference runs configured by hand in a process of their own")


def notprop(id, title, statement, q, why, files, reason):
    NOT.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": ["inputs"], "text": q}, "why_tests_cant": why,
                 "anchors": {"files": files, "mechanism": [], "state": [], "observe_at": [], "hook_needed": None}}, reason))


PURE = "a pure function of its arguments: no schedule, clock, I/O, fault or history for a simulation to control; %s"
NOT = []
notprop("C51", "Non-dominated sorting is correct",
        "Every sorting method puts each point in the front whose index is the length of the longest chain of points dominating it.",
        "every set of points, including ties and infinities", "Tests compare methods on a few random sets.", ["pymoo/util/nds", "pymoo/functions"],
        PURE % "wrong fronts are found only as far as C12, C13, C17 and C11 depend on them")
notprop("C52", "Performance indicators equal their definitions",
        "GD, GD+, IGD, IGD+, hypervolume, KKTPM and spacing equal their mathematical definitions on every set of points.",
        "every set of points and reference", "Tests check a few known values.", ["pymoo/indicators"],
        PURE % "needs proofs or differential testing of formulas")
notprop("C53", "Reference directions lie on the unit simplex",
        "Every method of generating reference directions returns the requested number of distinct points of the unit simplex.",
        "every method, dimension and number", "Tests check a few numbers.", ["pymoo/util/ref_dirs"],
        PURE % "that they depend on the seed alone is part of C01")
notprop("C54", "Test problems match their published definitions",
        "Objective and constraint values, Pareto sets and fronts of the test problems are those of the publications.",
        "every problem, dimension and design", "Tests compare a sample of values.", ["pymoo/problems"],
        PURE % "needs the definitions as an oracle; C19 and C22 cover the stateful ones")
notprop("C55", "Decomposition, normalization and decision making are correct",
        "Scalarizations, normalizations and multi-criteria decision making return the values their definitions give.",
        "every set of points, weights and options", "Tests check a few values.", ["pymoo/decomposition", "pymoo/util/normalization.py", "pymoo/mcdm"],
        PURE % "their use inside algorithms is exercised by C12, C17 and C21")
notprop("C56", "Plots show the data they were given",
        "Every visualization draws all points given, at their places.", "every data set and option",
        "Tests only check that plotting raises no error.", ["pymoo/visualization"],
        "rendering has no schedule, clock, fault or history to control, and its result is an image nothing here can judge")


def main():
    have = [p for p in P if os.path.exists(os.path.join(V, "sim", "props", p["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in have:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "observe_at": p["observe"], "hook_needed": p["hook"]}}, sort_keys=False) + "\n")
        for p, _ in NOT:
            f.write(json.dumps(p) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "python3 run.py --property %s --tier quick" % p["id"],
               "thorough_cmd": "python3 run.py --property %s --tier thorough" % p["id"],
               "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"],
               "level_note": p["note"]} for p in have]
    m = {"version": 1, "setup_cmd": "python3 run.py --selftest",
         "checks": checks, "not_applicable": [{"property": p["id"], "reason": r} for p, r in NOT],
         "notes": "One seed = one repeatable exploration: VERIF_SEED chooses it. Replays: python3 run.py --replay FILE. No hooks in /repo: every "
                  "seam is installed at the level of the standard library, numpy or the library's own extension points."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(have), "claimed:", " ".join(p["id"] for p in have))


if __name__ == "__main__":
    main()

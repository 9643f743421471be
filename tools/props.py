"""Property texts; ``python3 tools/props.py`` rewrites properties.jsonl and
MANIFEST.json."""
import json
import os

DIST = "optbinning/binning/distributed/"
BIN = "optbinning/binning/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech, state=state,
                  observe=observe, technique=technique, note=note, na=na))


prop("P01", "Streaming sketches conserve every record",
     "However a data set is split over sketches, fed in batches, serialised, "
     "crashed and restored from checkpoints, and merged along any tree, the "
     "merged sketch accounts for each record exactly once: total, event, "
     "non-event, missing and special-code counts equal those of the data fed "
     "in, per bin rows add up to the totals, and merging leaves the merged-in "
     "sketch unchanged. This holds for numerical sketches (both quantile "
     "algorithms, any error parameter) and for categorical sketches.",
     ["schedules", "crash_points", "fault_sequences", "histories", "inputs"],
     "every interleaving of add/merge/serialise over any number of nodes and "
     "merge trees, every message loss/duplication/delay/partition and "
     "crash-restart sequence, every batch content (missing, special codes, "
     "single-class, one-row batches)",
     "Tests add one or two fixed batches in one fixed order and merge two "
     "freshly built sketches once; conservation is a statement about all "
     "histories.",
     [DIST + "bsketch.py", DIST + "gk.py", DIST + "binning_sketch.py",
      BIN + "preprocessing.py"],
     [("sketch add/merge counters", DIST + "bsketch.py"),
      ("weighted tuple merge", DIST + "gk.py"),
      ("clean/missing/special split", BIN + "preprocessing.py")],
     [("per-class summaries, missing and special counters", "what was fed",
       DIST + "bsketch.py")],
     ["record counts of the sketch", "binning table of a solved copy"],
     "deterministic simulation of a lossy, crashing cluster around the real "
     "sketches; exact record accounting as invariant",
     "Seeded search: real sketches, pickle and solver; network, disks and "
     "delivery protocol simulated. Counts are compared exactly with the "
     "records fed after every add and merge and at the end.")

prop("P02", "Sketch answers do not depend on how the data was partitioned",
     "While the error parameter times the record count stays below one, bin "
     "counts and quantiles of a merged sketch are exact and solving it gives "
     "the same optimal binning as one sketch fed all the data at once, "
     "whatever the partition, batch order and merge tree; categorical counts "
     "are always exact. Beyond that, the number of records on either side of "
     "any value is off by at most a small constant multiple of the error "
     "parameter times the record count, and the summary stays much smaller "
     "than the data.",
     ["schedules", "fault_sequences", "histories", "inputs"],
     "every partition of the data over nodes and batches, every order of "
     "adds and merges, every value distribution and error parameter",
     "Tests check one distribution with one merge and a loose comparison; "
     "the error bound quantifies over all partitions and merge orders.",
     [DIST + "gk.py", DIST + "bsketch.py", DIST + "binning_sketch.py"],
     [("insert/compress invariant", DIST + "gk.py"),
      ("quantile query", DIST + "gk.py"),
      ("bin counting", DIST + "bsketch.py")],
     [("summary tuples", "value, weight, uncertainty", DIST + "gk.py")],
     ["bin counts at arbitrary splits", "quantiles", "solved table"],
     "deterministic simulation of partitioned delivery; exact multiset "
     "reference and single-node twin",
     "Seeded search over partitions, orders and faults. In the approximate "
     "regime the accepted error is 6*eps*n+2, larger than the observed 3.4.")


prop("P03", "Merging isolates sketches and refuses incompatible ones",
     "After a merge both sketches keep a life of their own: adding to, "
     "solving or merging one never changes the other's counts or answers, a "
     "copy or a restored snapshot equals the original, sketches without data "
     "merge in either direction, and sketches with different parameters or "
     "special codes are refused with an error that leaves both unchanged.",
     ["histories", "crash_points", "inputs"],
     "every interleaving of add, merge, copy, snapshot, restore and refused "
     "merge over a pool of sketches, every order and emptiness of operands",
     "Aliasing only shows when one side changes after the merge; tests merge "
     "once and read the result.",
     [DIST + "bsketch.py", DIST + "binning_sketch.py", DIST + "base.py",
      DIST + "gk.py"],
     [("merge and mergeable", DIST + "binning_sketch.py"),
      ("dictionary merge of categories", DIST + "bsketch.py")],
     [("per-class summaries of every sketch of the pool", "own reference",
       DIST + "bsketch.py")],
     ["record counts and bin counts of every sketch after every operation"],
     "deterministic simulation of operation histories with crash-restore; "
     "one exact reference model per sketch",
     "Seeded search over histories; every sketch is compared with its own "
     "multiset after every operation.")

prop("P04", "Solving mid-stream only observes the data added so far",
     "A sketch may be solved at any time and any number of times: a solve "
     "does not change the data it holds, its result is the one a fresh "
     "sketch fed the same records gives whatever was solved, read or timed "
     "out before, reads after more data was added still answer from the last "
     "solve, and reads before any solve are refused.",
     ["histories", "crash_points", "schedules"],
     "every placement of solves, reads, solver deadlines and crash-restores "
     "in a stream of adds and merges",
     "Tests solve once at the end of one stream; state carried from one "
     "solve to the next only shows in longer histories.",
     [DIST + "binning_sketch.py", DIST + "bsketch.py", BIN + "cp.py"],
     [("solve/update of the optimal binning", DIST + "binning_sketch.py"),
      ("prebinning refinement flags", DIST + "binning_sketch.py")],
     [("splits, solution and refinement counters", "per solve",
       DIST + "binning_sketch.py")],
     ["table, transforms and status after each solve"],
     "deterministic simulation of solve points and solver deadlines; fresh "
     "single-shot twin as oracle",
     "Seeded search; each solve is compared with a fresh sketch fed the same "
     "records.")

prop("P05", "Multi-variable sketches equal one sketch per variable",
     "A multi-variable sketch fed batches in which columns come and go, "
     "merged over any tree, crashed and restored, gives per variable the "
     "table, splits and transform of an independent sketch of that variable "
     "over the same records, honours each variable's own options, selects "
     "the variables its selection criteria name, and survives save/load.",
     ["schedules", "crash_points", "fault_sequences", "histories", "inputs"],
     "every delivery order, loss, duplication, crash and merge tree; every "
     "set of columns per batch; every selection criterion",
     "Tests feed complete batches to two processes and merge once.",
     [DIST + "binning_process_sketch.py", BIN + "binning_process.py"],
     [("column routing of add", DIST + "binning_process_sketch.py"),
      ("variable selection", BIN + "binning_process.py")],
     [("one sketch per variable", "records of that variable",
       DIST + "binning_process_sketch.py")],
     ["support, tables, transforms, sample counts"],
     "deterministic simulation of a lossy, crashing cluster; independent "
     "per-variable twins and a reference selection as oracle",
     "Network, disks and delivery protocol simulated, everything else real.")

prop("P06", "Fitting from disk equals fitting in memory, faults included",
     "BinningProcess.fit_disk gives the tables, selection and transforms of "
     "an in-memory fit of the same file whatever the separator, path and "
     "column order. When a read fails the error surfaces, the object does "
     "not answer from a mixture of old and new fits, and fitting again gives "
     "the clean result.",
     ["fault_sequences", "histories", "inputs"],
     "every position and kind of disk fault (open, read, short read) in "
     "every sequence of fits and refits, every table content",
     "Tests read one healthy file once.",
     [BIN + "binning_process.py"],
     [("column-wise read and fit", BIN + "binning_process.py")],
     [("per-variable binnings, support and statistics", "the file",
       BIN + "binning_process.py")],
     ["tables, support, transform after each call"],
     "deterministic simulation of a faulty disk; in-memory fit as oracle",
     "Faults injected at the file operations pandas performs; pandas, "
     "binning and solver are real.")

prop("P07", "Out-of-core transform equals in-memory transform",
     "transform_disk and fit_transform_disk write, for every chunk size and "
     "metric, exactly the rows of the in-memory transform of the file, in "
     "order and once each, whatever was in the output before. When a read or "
     "write fails or the process crashes, the error surfaces and a repeated "
     "call gives the complete correct file.",
     ["fault_sequences", "crash_points", "inputs", "histories"],
     "every chunk size, metric and table content; every position and kind of "
     "disk fault, crash and retry",
     "Tests transform one healthy file once with one chunk size.",
     [BIN + "binning_process.py", BIN + "transformations.py"],
     [("chunked transform loop", BIN + "binning_process.py")],
     [("output file", "rows of the input so far", BIN + "binning_process.py")],
     ["parsed output file", "errors"],
     "deterministic simulation of a faulty, crashing disk; in-memory "
     "transform as oracle",
     "Faults injected at open, read and write; pandas and binning are real.")

prop("P09", "n_jobs does not change the result under any worker schedule",
     "Fitting a process with any number of parallel workers gives exactly "
     "the sequential result, whatever the interleaving and completion order "
     "of the workers, threads or processes. When a worker fails the error "
     "surfaces, the process does not answer as if fitted, and fitting again "
     "succeeds.",
     ["schedules", "fault_sequences", "inputs"],
     "every interleaving of the workers at source-line granularity, every "
     "completion order, number of workers and worker failure",
     "Tests run one uncontrolled schedule on few variables.",
     [BIN + "binning_process.py"],
     [("parallel dispatch and collection", BIN + "binning_process.py")],
     [("per-variable binnings and statistics", "workers",
       BIN + "binning_process.py")],
     ["tables, support, transform of the fitted process"],
     "deterministic simulation of worker threads with seeded preemption; "
     "sequential fit as oracle",
     "Worker pool and thread scheduling simulated; joblib dispatch and "
     "binning are real.")

ALL = [BIN + "binning.py", BIN + "continuous_binning.py",
       BIN + "multiclass_binning.py", BIN + "multidimensional",
       BIN + "piecewise", BIN + "uncertainty", BIN + "distributed",
       BIN + "binning_process.py", "optbinning/scorecard"]

prop("P10", "Concurrent readers of one fitted object get the sequential answers",
     "Any number of threads may transform, score, build tables, run analyses "
     "and print reports on one fitted object at the same time, with the same "
     "or different arguments: each gets exactly the answer it would get "
     "alone. This holds for every binning, process, sketch, scorecard, "
     "monitoring and counterfactual object.",
     ["schedules", "inputs"],
     "every interleaving of the readers at source-line granularity, every "
     "mix of reads and arguments, every fitted object",
     "Tests read one object from one thread; per-call state stored on a "
     "shared object or module only shows under an unlucky preemption.",
     ALL + [BIN + "transformations.py", BIN + "binning_statistics.py"],
     [("transform", BIN + "transformations.py"),
      ("binning tables", BIN + "binning_statistics.py"),
      ("scoring", "optbinning/scorecard/scorecard.py")],
     [("fitted attributes", "written by fit only", BIN + "binning.py")],
     ["return values of transform, score, predict, build, analysis"],
     "deterministic simulation of reader threads with seeded line-level "
     "preemption; sequential answers as oracle",
     "Thread scheduling simulated (one task runs at a time, switches at "
     "source lines of optbinning), everything else real.")

prop("P11", "Independent fits never interfere with each other",
     "Fits of different objects in different threads, on shared input arrays "
     "and shared option objects (lists, dictionaries, estimators, special "
     "codes), give exactly what each gives alone, also when a sibling fails "
     "midway; inputs and options are left unchanged.",
     ["schedules", "fault_sequences", "inputs"],
     "every interleaving of the fits at source-line granularity, every "
     "combination of estimator types and options, every failure point of a "
     "sibling",
     "Tests fit one object at a time with private inputs; shared mutable "
     "defaults, module state and in-place edits need two overlapping fits.",
     ALL, [("fit", BIN + "binning.py"),
           ("pre-binning refinement", BIN + "binning.py"),
           ("model building", BIN + "cp.py")],
     [("options and inputs", "owned by the user", BIN + "binning.py")],
     ["all reads of each fitted object", "inputs after the fit"],
     "deterministic simulation of fitting threads with seeded line-level "
     "preemption; solo fits as oracle",
     "Thread scheduling simulated, everything else real.")

prop("P14", "An aborted fit never answers from a mixture of solutions",
     "When a fit is stopped at any point by an exception, a failed "
     "allocation or a cancellation, the object afterwards either refuses to "
     "answer or every answer belongs to one single complete fit (the "
     "previous one or the new one), never a mixture; fitting it again gives "
     "exactly what a new object gives, and an undisturbed fit with legal "
     "options, and every read after it, succeeds unless the code declines "
     "the options or data with a message saying so.",
     ["crash_points", "fault_sequences", "histories"],
     "every executed source line as the point of failure, every kind of "
     "failure, every sequence of fits on different data sets",
     "Tests never interrupt a fit; the half-updated states between two "
     "assignments cannot be reached from outside.",
     ALL, [("fit and its state", BIN + "binning.py"),
           ("process fit", BIN + "binning_process.py"),
           ("scorecard fit", "optbinning/scorecard/scorecard.py")],
     [("_is_fitted, splits, table, solution", "one fit", BIN + "binning.py")],
     ["every read after the abort", "every read after the retry"],
     "deterministic simulation of failures at every source line of a fit; "
     "single-fit answers as oracle",
     "The failure is an exception raised at a seeded executed line; solver "
     "and libraries are real.")

prop("P15", "Reads, failed or aborted ones included, change nothing",
     "Transforming, scoring, building tables, analysing and printing, with "
     "valid or refused arguments and also when aborted midway, never change "
     "a fitted object nor the inputs: every later answer equals the one "
     "given right after the fit.",
     ["histories", "crash_points", "inputs"],
     "every history of reads with every argument, every executed source line "
     "as the point of failure",
     "Tests read once per fitted object, in one order, with no failure.",
     ALL + [BIN + "transformations.py", BIN + "binning_statistics.py"],
     [("transform", BIN + "transformations.py"),
      ("binning tables", BIN + "binning_statistics.py"),
      ("psi and tests tables", "optbinning/scorecard/monitoring.py")],
     [("fitted attributes", "written by fit only", BIN + "binning.py")],
     ["every read after every operation", "the inputs"],
     "deterministic simulation of read histories with failures at every "
     "source line; answers right after the fit as oracle",
     "The failure is an exception raised at a seeded executed line.")

prop("P16", "A fit depends only on its data and options",
     "Fitting the same data with the same options gives the same splits, "
     "tables, transforms and reports whatever the state of the global random "
     "generators, the hash seed, the clock, earlier fits of the same object, "
     "failed calls before, and whatever the container, index, memory layout "
     "or writability of the inputs; fitting and reading leave the global "
     "random state, the inputs and the options unchanged.",
     ["histories", "inputs", "fault_sequences"],
     "every ambient state (random generators, hash seed, clock), every "
     "history of the object, every equivalent container of the same data",
     "Tests run each fit once in one environment.",
     ALL, [("fit", BIN + "binning.py"),
           ("pre-binning", BIN + "prebinning.py"),
           ("table analysis", BIN + "binning_statistics.py")],
     [("global random state", "not owned by the library",
       BIN + "binning_statistics.py")],
     ["all reads in both environments", "random state", "inputs, options"],
     "deterministic simulation of the ambient environment (random state, "
     "hash seed, clock, history); plain-environment twin as oracle",
     "Clock, random generators, hash seed and solver seed are simulated; "
     "fits are real.")

prop("P17", "Every answer is that of the bin holding the row",
     "A fitted object describes a partition: intervals of the clean values "
     "(or groups of categories), one row per special code group, one for "
     "missing values. The table reports exactly the records of each row, and "
     "every later answer for any row -- single rows, batches, any container, "
     "values on a split, unseen categories, codes, missing values, any "
     "metric and any treatment of missing and special values, before or "
     "after a crash and restore of the replica, a redeployment or an aborted "
     "request -- is the table's value for the row that holds it; "
     "fit_transform answers like fit followed by transform.",
     ["inputs", "histories", "crash_points"],
     "every request to every replica after any history of deployments, "
     "crashes, restores and aborted requests, for every binning family "
     "(binary, continuous, multiclass, 2D, piecewise, sketch, scenario, "
     "process)",
     "Tests compare a handful of transforms with stored numbers, mostly of "
     "clean rows, and never after a restore or an aborted call.",
     ALL + [BIN + "transformations.py", BIN + "binning_statistics.py",
            BIN + "piecewise/transformations.py",
            BIN + "multidimensional/transformations_2d.py"],
     [("1-D transforms", BIN + "transformations.py"),
      ("piecewise transforms", BIN + "piecewise/transformations.py"),
      ("2D transforms", BIN + "multidimensional/transformations_2d.py"),
      ("tables", BIN + "binning_statistics.py")],
     [("splits, per-bin counts", "the partition and its statistics",
       BIN + "binning.py")],
     ["binning tables", "every transform and fit_transform answer"],
     "deterministic simulation of a scoring service (replicas, crash and "
     "restore, redeployment, aborted requests); independent partition and "
     "statistics model as oracle",
     "Replicas and requests are simulated; fits, pickling and transforms "
     "are real.")

prop("P08", "What is loaded is what was saved, or the load fails",
     "Loading a saved binning process or scorecard, reading the JSON file of "
     "a binning, or unpickling any fitted object gives an object that "
     "answers every question like the one whose save completed -- all "
     "transforms, tables, splits and reports, for numerical and categorical "
     "variables, special codes of any form and user splits, into a new "
     "object or one fitted on other data -- or it fails. A failing disk, a "
     "full disk, short reads and writes, or a crash in the middle of a save "
     "never go unnoticed and never give a different object; a failed load "
     "leaves the object it was to replace as it was; saving changes nothing, "
     "and saving what was loaded gives the same file.",
     ["crash_points", "fault_sequences", "histories", "inputs"],
     "every sequence of saves and loads over the same files with every disk "
     "fault and crash point in between, every fitted object",
     "Tests save and load once on a healthy disk and compare little.",
     ALL + ["optbinning/scorecard/scorecard.py", BIN + "base.py"],
     [("JSON files", BIN + "base.py"),
      ("to_json, read_json", BIN + "binning.py"),
      ("save, load", BIN + "binning_process.py")],
     [("the file", "a complete object or unreadable", BIN + "base.py")],
     ["every read of the loaded object", "errors of save and load"],
     "deterministic simulation of disk faults and crashes around save and "
     "load; the object whose save completed as oracle",
     "Disk faults and process death are simulated behind open(); saving, "
     "loading and pickling are real.")

prop("P12", "A binning keeps its promises whenever its search is cut short",
     "Whatever the moment at which the time budget strikes, and whatever the "
     "solver returns within its tolerance, fit ends without an error, with "
     "one of the statuses OPTIMAL, FEASIBLE, INFEASIBLE, UNKNOWN or ABNORMAL, "
     "and with a usable binning: the bins partition the values, every record "
     "is in one bin of the table, and a binning the solver returned respects "
     "the options asked for, computed from the records alone (monotonic "
     "trend, number and size of bins, event counts, minimum difference "
     "between bins, p-value, fixed splits). Without solution there is one "
     "bin. Fits of the same object do not influence each other, and a fit "
     "with more time recovers the full solution. This holds for binary, "
     "continuous, multiclass, two-variable, scenario-based and sketch "
     "binnings, with constraint and with linear programming.",
     ["inputs", "schedules", "histories", "fault_sequences"],
     "every data set and combination of options, every point at which the "
     "time budget can strike, every sequence of such fits",
     "Tests let the solver finish, on a few data sets, and look at the status "
     "or stored splits.",
     [BIN + "binning.py", BIN + "continuous_binning.py",
      BIN + "multiclass_binning.py", BIN + "cp.py", BIN + "mip.py",
      BIN + "multidimensional/binning_2d.py",
      BIN + "multidimensional/continuous_binning_2d.py",
      BIN + "uncertainty/binning_scenarios.py",
      BIN + "distributed/binning_sketch.py"],
     [("_fit_optimizer", BIN + "binning.py"),
      ("solve", BIN + "cp.py")],
     [("status, splits", "the outcome of the search", BIN + "binning.py")],
     ["status, splits, table and transform after every fit"],
     "deterministic simulation of the solver's time budget and tolerance over "
     "a history of fits; independent counts from the records as oracle",
     "The deadline is simulated; models and solvers are real.")

prop("P13", "A binning reported optimal is optimal, and its status is honest",
     "With the candidate splits given, a binning (of one or two variables) "
     "whose status is OPTIMAL has "
     "the largest value (divergence, sum of distances to the mean, weighted "
     "over scenarios or classes, less the regularisation) among all binnings "
     "admissible under the options: monotonic trend, number of bins, bin "
     "sizes, event counts, minimum difference, p-value and fixed splits. "
     "FEASIBLE means an admissible binning whose search was cut short; "
     "INFEASIBLE is reported only when no binning is admissible; a search "
     "without solution gives a single bin, and no status claims more than "
     "the solver established, on the first fit or any later one.",
     ["inputs", "schedules", "histories"],
     "every set of candidate bins, every combination of options, every point "
     "at which the time budget can strike, every sequence of fits of one "
     "object",
     "Tests compare the splits of one or two data sets with stored ones; "
     "none lists what else was admissible, and no test stops the solver.",
     [BIN + "cp.py", BIN + "mip.py", BIN + "continuous_cp.py",
      BIN + "multiclass_cp.py", BIN + "multiclass_mip.py",
      BIN + "multidimensional/cp_2d.py", BIN + "multidimensional/mip_2d.py",
      BIN + "multidimensional/model_data_2d.py",
      BIN + "model_data.py", BIN + "binning.py",
      BIN + "uncertainty/binning_scenarios.py"],
     [("CP models", BIN + "cp.py"), ("MIP models", BIN + "mip.py"),
      ("objective and violations", BIN + "model_data.py")],
     [("status, splits", "the outcome of the search", BIN + "binning.py")],
     ["splits and status after every fit"],
     "deterministic simulation of the solver's time budget over a sequence "
     "of fits; independent enumeration of all admissible binnings as oracle",
     "The deadline is simulated; models and solvers are real. Heuristic "
     "trends are checked for admissibility only.")

SC = ["optbinning/scorecard/scorecard.py", "optbinning/scorecard/rounding.py"]

prop("P18", "A scorecard's score is the sum of its points and fits its model",
     "The points of a scorecard are the coefficient times the value the "
     "estimator saw for that bin, scaled as asked: without rounding, the "
     "score of any row is exactly the scaled linear prediction, the extreme "
     "attainable scores are the requested minimum and maximum (min_max), "
     "pdo and odds mean what they say, an intercept-based card has a zero in "
     "every variable; with rounding, points are integers, within one of the "
     "exact ones and, for min_max, inside the requested range, also when the "
     "rounding solver is cut short. score, predict, predict_proba and "
     "decision_function of any row answer by the bins holding its values, on "
     "every replica and after any crash, restore, save and load, "
     "retraining in place with other options or aborted request.",
     ["inputs", "histories", "crash_points", "fault_sequences"],
     "every data set, per-variable transform option, scaling, treatment of "
     "missing and special values, every history of trainings, deployments, "
     "crashes and requests, every outcome of the rounding solver",
     "Tests compare a few scorecards with stored numbers, without "
     "per-variable options, refits, or a failing rounding solver.",
     SC + [BIN + "binning_process.py", BIN + "transformations.py"],
     [("points and scaling", SC[0]), ("rounding", SC[1]),
      ("transform of each variable", BIN + "binning_process.py")],
     [("_df_scorecard, intercept_", "points per bin", SC[0])],
     ["scorecard tables", "every score and prediction"],
     "deterministic simulation of a scoring service (training, replicas, "
     "crash and restore, retraining, solver cut-offs, aborted requests); "
     "independent scorecard model as oracle",
     "Service and solver deadline are simulated; fits, estimators, pickling "
     "and scoring are real. One listed finding: scores of categories not "
     "seen in training.")


prop("P19", "Monitoring and performance figures are those of the records",
     "For every pair of expected and actual record streams a monitoring "
     "service is fed, over refits, retraining, restarts and aborted "
     "requests, the PSI table, its totals, the tests per bin and the system "
     "stability figures equal those computed directly from the records and "
     "the scorecard's own scores: every record is counted once, in the bin "
     "whose label contains its score, PSI of each variable is that of its "
     "binning table, and KS, Gini, confusion figures, gains, lifts and the "
     "plotted curves are the definitions applied to the same records, "
     "whatever their order, ties or class balance.",
     ["histories", "inputs", "crash_points", "fault_sequences"],
     "every sequence of fits, retrainings, windows, reports, plots, crashes "
     "and aborted requests over binary and continuous targets; every score "
     "distribution (ties, constants, scores equal to a split, missing and "
     "special inputs, single-class windows, empty bins)",
     "Tests compare one fixed sample with stored numbers; ties, empty bins, "
     "scores on a split, missing records and single-class windows are "
     "not visited.",
     ["optbinning/scorecard/monitoring.py", "optbinning/scorecard/plots.py",
      "optbinning/metrics/classification.py",
      "optbinning/metrics/regression.py"],
     [("PSI tables and tests", "optbinning/scorecard/monitoring.py"),
      ("KS, Gini, confusion figures",
       "optbinning/metrics/classification.py"),
      ("curves", "optbinning/scorecard/plots.py")],
     [("_psi_table, _tests_table, _splits", "figures of the last fit",
       "optbinning/scorecard/monitoring.py")],
     ["PSI, test and statistics tables", "printed report", "plotted curves"],
     "deterministic simulation of a monitoring service (windows of records, "
     "retraining, crash and restore, aborted requests); independent "
     "recomputation from the records as oracle",
     "Service, requests and faults are simulated; scorecard, monitoring, "
     "pickling and plotting (headless canvas) are real.")


prop("P20", "Analyses and plots show the figures of the fitted records",
     "For every fitted table (binary, continuous, multiclass, "
     "two-dimensional, piecewise, scenario or sketch), in whatever order "
     "build, analysis and plot are called, with any options, on the current "
     "or an earlier table, before or after a restore, and after a call that "
     "died half way, the printed statistics, test p-values, monotonic trend, "
     "significance tests and every drawn bar, line and colour equal those "
     "computed directly from the records of that fit, special and missing "
     "bins included only when asked for, and the table itself is unchanged.",
     ["histories", "inputs", "crash_points", "fault_sequences"],
     "every sequence of build, analysis and plot calls and option "
     "combinations over every kind of table, special codes as list or "
     "dictionary, with and without an others bin, and every line at which a "
     "previous call may have been interrupted",
     "Tests only check that these calls do not raise on one data set; no "
     "printed or drawn figure is compared with anything.",
     [BIN + "binning_statistics.py", BIN + "metrics.py",
      BIN + "auto_monotonic.py",
      BIN + "multidimensional/binning_statistics_2d.py",
      BIN + "piecewise/binning_statistics.py",
      BIN + "piecewise/metrics.py"],
     [("table analysis", BIN + "binning_statistics.py"),
      ("divergences and tests", BIN + "metrics.py"),
      ("2D tables", BIN + "multidimensional/binning_statistics_2d.py"),
      ("piecewise tables", BIN + "piecewise/binning_statistics.py")],
     [("_n_specials, _event_rate, _woe, _iv ...", "figures of the fit",
       BIN + "binning_statistics.py")],
     ["printed analysis", "drawn axes", "built table"],
     "deterministic simulation of a reporting session (request sequences "
     "over live and restored tables, aborted requests); independent "
     "recomputation from the records as oracle",
     "Requests, crashes and interruptions are simulated; fitting, pickling, "
     "printing and plotting (headless canvas) are real.")


CF = "optbinning/scorecard/counterfactual/"

prop("P21", "Counterfactuals hold on the scorecard and none is better",
     "Whatever the history of fits, requests, refused and interrupted "
     "requests, and however the solver's budget ends, every counterfactual "
     "shown is an existing alternative of the query: the record obtained by "
     "replacing the features shown gets from the scorecard exactly the "
     "outcome shown, reaches the outcome asked for, changes only actionable "
     "features into other bins (special and missing ones only if allowed), "
     "no more than the maximum, and satisfies the diversity constraints; "
     "with enough budget it is optimal for the stated objectives and "
     "priorities, none is reported missing when one exists, OPTIMAL is "
     "claimed only if proven, and the scorecard, the query and the previous "
     "answer stay as they were.",
     ["histories", "inputs", "crash_points", "fault_sequences"],
     "every session of fit and generate calls over every kind of scorecard "
     "and request (type of outcome, number, method, objectives and "
     "priorities, hard and soft constraints, actionable features, budget), "
     "every end of the solver's budget, and every line at which a request "
     "may be interrupted",
     "Tests check one or two requests on one scorecard, without comparing "
     "the answer with the scorecard's own score or with the alternatives.",
     [CF + "counterfactual.py", CF + "mip.py", CF + "multi_mip.py",
      CF + "model_data.py", CF + "problem_data.py"],
     [("single counterfactual MIP", CF + "mip.py"),
      ("several counterfactuals MIP", CF + "multi_mip.py"),
      ("alternatives", CF + "model_data.py")],
     [("_cfs", "the counterfactuals shown", CF + "counterfactual.py")],
     ["generate", "display", "status", "scorecard scores"],
     "deterministic simulation: seeded sessions under a simulated solver "
     "budget with interrupted and refused requests; every answer scored by "
     "the scorecard itself and compared with the enumeration of all "
     "alternatives",
     "CBC runs real code under a simulated deadline; an answer that CBC "
     "itself gets wrong (a second engine disagrees on the same model) is "
     "counted, not reported.")

prop("P22", "A process assembled by hand answers from its current variables",
     "However a binning process came to hold its variables (fitted on data, "
     "assembled from separately fitted binnings, refitted over another list "
     "of variables, single variables replaced by other binnings or "
     "piecewise ones, restored from the last save), everything it answers "
     "- summary, selection, information, transformed data in memory or on "
     "disk, tables - is what follows from the binnings it currently holds "
     "and its selection criteria. Replacements and assemblies that do not "
     "fit (unfitted, other variable, other target, unknown name) are refused "
     "and change nothing; an interrupted replacement leaves the old or the "
     "new variable.",
     ["histories", "inputs", "crash_points", "fault_sequences"],
     "every sequence of fits, assemblies, replacements (accepted, refused, "
     "interrupted at any line), reads in any order, saves, crashes and "
     "restores, over every target type and selection criteria",
     "Tests update one variable once and read the summary immediately; a "
     "stale selection or left-over variable needs a particular order of "
     "updates and reads.",
     [BIN + "binning_process.py",
      BIN + "piecewise/binning_statistics.py"],
     [("update of a variable and lazy re-selection",
       BIN + "binning_process.py"),
      ("assembly from fitted binnings", BIN + "binning_process.py")],
     [("_binned_variables, _variable_stats, _support, _is_updated",
       "current variables, their statistics, the selection and whether it "
       "is stale", BIN + "binning_process.py")],
     ["summary", "get_support", "information", "transform",
      "transform_disk", "get_binned_variable"],
     "deterministic simulation: seeded histories of fits, replacements, "
     "reads, crashes and interruptions against an oracle that recomputes "
     "every answer from its own copies of the current binnings",
     "Real process, binnings and pickle; statistics of each variable come "
     "from its own table (decided by P19/P20).")

prop("P23", "Recoding the data recodes the answers and nothing else",
     "An answer depends on what the records say, not on how they are coded. "
     "Two objects taken through the same history (fits, solver deadlines, "
     "crash-restores, reads), one on the data, the other on the same data "
     "with values shifted or scaled by a power of two, records in another "
     "order, or categories, variables, columns or special codes renamed or "
     "reordered, give the same splits, groups, tables, statistics, selection "
     "and transformed values up to that coding. Not claimed: record order "
     "with fractional class weights, for scorecards and categorical "
     "sketches, or inside a group of rare categories; shifts where bins come "
     "from the range or quantiles of the values; scaling with split_digits.",
     ["inputs", "histories", "fault_sequences"],
     "every dataset, coding of it, estimator family and options, and every "
     "history of fits, deadlines, refits and restores",
     "Tests fit data in one coding; a dependence on order, magnitude, names "
     "or positions shows only when the same history is lived twice in "
     "different codings.",
     [BIN + "binning.py", BIN + "continuous_binning.py",
      BIN + "multiclass_binning.py", BIN + "prebinning.py",
      BIN + "preprocessing.py", BIN + "binning_process.py",
      BIN + "mdlp.py"],
     [("prebinning and refinement", BIN + "prebinning.py"),
      ("grouping of categories", BIN + "binning.py")],
     [("_splits_optimal, _categories, _n_event, _n_nonevent",
       "fitted bins and their counts", BIN + "binning.py")],
     ["splits", "binning_table.build", "binning_table.analysis",
      "transform", "summary", "get_support", "score"],
     "deterministic simulation: two objects in lockstep through one seeded "
     "history of fits, solver deadlines, restores and reads on two codings "
     "of the data; answers compared after decoding (metamorphic oracle)",
     "Values lie on a grid on which sums and shifts are exact; piecewise and "
     "counterfactual families are not covered.")


def main():
    P.sort(key=lambda p: p["id"])
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            d = {"id": p["id"], "title": p["title"],
                 "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {
                     "files": p["files"],
                     "mechanism": [{"name": a, "where": b}
                                   for a, b in p["mech"]],
                     "state": [{"name": a, "meaning": b, "where": c}
                               for a, b, c in p["state"]],
                     "observe_at": list(p["observe"]),
                     "hook_needed": None}}
            f.write(json.dumps(d) + "\n")
    m = {"version": 1,
         "setup_cmd": "./run.sh list",
         "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo: every seam is reached from outside "
                  "(solver classes, time module, open(), joblib backend, "
                  "sys.settrace scheduling). See DESIGN.md."}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"],
                                        "reason": p["na"]})
            continue
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "./run.sh check %s quick" % p["id"],
            "thorough_cmd": "./run.sh check %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

"""Writes /verif/properties.jsonl (kept as code so that the JSON stays valid)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def add(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


add("C01", "LCM mines exactly the closed frequent itemsets under any worker schedule",
    "For every transactional database, minimum support and option set (tids, length cap, ordering), LCM run with any number of joblib workers, in whatever order and grouping their tasks run and finish, returns exactly the closed itemsets whose support reaches the threshold, each once, with its exact support and tids, in the row order of a single-worker run. If a worker dies or a task fails, the call raises and never returns a partial result, and calling again on the same estimator returns the full answer.",
    ["schedules", "inputs", "fault_sequences", "configurations"],
    "every database, min_supp (absolute or relative), n_jobs, task order/batching/isolation, and every task or worker failure point",
    "the tests mine a dozen fixed databases with n_jobs=1 and never control the order in which tasks finish or kill a worker",
    ["skmine/itemsets/lcm.py"],
    [("joblib fan-out over root items and ordered concatenation", "skmine/itemsets/lcm.py:LCM.transform"),
     ("prefix-preserving closure extension", "skmine/itemsets/lcm.py:LCM._inner"),
     ("support threshold and item renaming", "skmine/itemsets/lcm.py:LCM.fit")])

add("C02", "LCMMax mines exactly the maximal frequent itemsets under any worker schedule",
    "For every transactional database, minimum support and option set, LCMMax run with any number of joblib workers, in whatever order and grouping their tasks run and finish, returns exactly the frequent itemsets that have no frequent proper superset (those no longer than the length cap if one is given), each once, with its exact support and tids, in the row order of a single-worker run. If a worker dies or a task fails, the call raises and never returns a partial result, and calling again on the same estimator returns the full answer.",
    ["schedules", "inputs", "fault_sequences", "configurations"],
    "every database, min_supp, n_jobs, task order/batching/isolation, and every task or worker failure point",
    "the tests check a handful of fixed databases sequentially; maximality across roots that finish in different orders is never exercised",
    ["skmine/itemsets/lcm.py", "skmine/utils.py"],
    [("pre-check of maximality inside a root branch", "skmine/itemsets/lcm.py:LCMMax._inner"),
     ("global maximality filter over all branches", "skmine/itemsets/lcm.py:LCMMax.transform, skmine/utils.py:filter_maximal")])

add("C03", "Result files: right content, loud failure, no collateral damage",
    "When transform(out=path) of LCM, LCMMax or SLIM returns normally, the file holds exactly the patterns, supports/usages and (if requested) tids that the same call without out= returns, in the same order, whatever the item type, previous file content or worker schedule, and also when several such calls with different paths run concurrently from one directory. If an I/O error or a worker failure hits, the call raises instead of returning, and after any failure or crash a repeated call produces the right file. A call that returned or raised has created, changed or deleted no file or directory other than the requested output.",
    ["schedules", "fault_sequences", "crash_points", "inputs"],
    "every model, option set, I/O error / short write / full disk / crash at every file operation, concurrent callers, and pre-existing files in the directory",
    "one test writes one file with one worker on a healthy disk in an empty directory",
    ["skmine/itemsets/lcm.py", "skmine/itemsets/slim.py"],
    [("per-root temporary files concatenated to out", "skmine/itemsets/lcm.py:LCM.transform"),
     ("file writer", "skmine/itemsets/lcm.py:LCM.write_df_tofile"),
     ("code table writer", "skmine/itemsets/slim.py:SLIM.transform")])

add("C04", "SLIM is anytime: any clock and time budget give a valid, lossless model",
    "Whatever the time budget and however the clock behaves (jumps, stalls, backward steps), SLIM.fit ends with a code table from which every training transaction is reconstructed exactly, whose usages are those of the greedy cover in standard cover order, whose reported data and model sizes equal the ones recomputed from those usages, and whose total size is not larger than that of the singleton-only table; the model so obtained answers transform, cover and code-length queries. Without a budget, or with one that is never exhausted, the fitted model does not depend on the clock. With a budget, at most one pattern is accepted after the clock has passed the deadline.",
    ["schedules", "inputs", "fault_sequences", "configurations"],
    "every transactional or tabular dataset, pruning on/off, max_time and sequence of clock readings",
    "the only budget test uses the real clock with one value; a wrong decision shows up only at particular clock readings between particular accepted candidates",
    ["skmine/itemsets/slim.py"],
    [("search loop with deadline", "skmine/itemsets/slim.py:SLIM.fit"),
     ("accepting a candidate", "skmine/itemsets/slim.py:SLIM.update, SLIM.evaluate, SLIM._prune"),
     ("lossless reconstruction", "skmine/itemsets/slim.py:SLIM.reconstruct")])

add("C05", "SLIM interactive mining stays lossless and consistent for any edit history",
    "After prefit or fit, for any sequence of interactive steps - generating candidates, evaluating any itemset of known items, accepting any of them in any order with either calling form of update - the code table stays lossless, its usages stay the greedy cover in standard cover order, and the reported sizes equal those recomputed from the usages. Generating and evaluating never change the model, and accepting a candidate installs exactly the sizes that evaluating it announced. Code lengths, covers and supports asked for in between answer from the current table. Generated candidates are pairwise unions of patterns used together in at least one transaction, each proposed once and by decreasing estimated gain.",
    ["histories", "inputs", "fault_sequences"],
    "every dataset and every sequence of generate/evaluate/update/fit steps, including ones interrupted by an exception during evaluation",
    "tests perform one or two update steps on three-transaction databases; consistency is an invariant over arbitrarily long edit histories",
    ["skmine/itemsets/slim.py"],
    [("interactive API", "skmine/itemsets/slim.py:SLIM.prefit, generate_candidates, evaluate, update"),
     ("cover and sizes", "skmine/itemsets/slim.py:cover, SLIM._compute_sizes")])

add("C06", "Fitted SLIM models answer concurrent readers correctly and never change",
    "On a fitted SLIM, SlimClassifier or SLIMVectorizer, every call to cover, get_code_length, decision_function, transform, reconstruct, get_support or predict returns the value defined by the fitted code table - greedy cover with unseen items dropped, Laplace-corrected code lengths with infinity for rows whose code is empty, the class whose model gives the shortest code - no matter which other such calls, with which arguments, are running at the same time on the same model in other threads. None of these calls changes any later answer.",
    ["schedules", "histories", "inputs"],
    "every fitted model, every multiset of concurrent read calls and every interleaving of them",
    "tests call each method once, from one thread, on fixed models",
    ["skmine/itemsets/slim.py", "skmine/itemsets/slim_classifier.py", "skmine/feature_extraction/slim_vectorizer.py"],
    [("cover of unseen data", "skmine/itemsets/slim.py:SLIM.cover, SLIM.get_code_length"),
     ("options held on the shared object during transform", "skmine/itemsets/slim.py:SLIM.transform"),
     ("score matrix held on the shared object during predict", "skmine/itemsets/slim_classifier.py:SlimClassifier.predict")])

add("C07", "A completed fit depends only on its own inputs, whatever happened before",
    "For every estimator (LCM, LCMMax, SLIM, SlimClassifier, SLIMVectorizer, MBDLLBorder, MDLPDiscretizer, PeriodicPatternMiner, GraphMDL), after any history of completed, rejected or interrupted fit and query calls on the object, a fit that completes gives the same answers as the same fit on a newly constructed object with the same parameters.",
    ["histories", "fault_sequences", "crash_points"],
    "every history of fits (on different data), queries, invalid inputs and exceptions (interrupt, memory error) raised at any point inside any earlier call",
    "tests construct a new estimator for nearly every assertion; stale state needs a specific earlier call or an interrupt at a specific line",
    ["skmine/itemsets/slim.py", "skmine/itemsets/lcm.py", "skmine/periodic/cycles.py", "skmine/graph/graphmdl/graph_mdl.py", "skmine/preprocessing/mdlp_discretizer.py", "skmine/emerging/mbdldorber.py"],
    [("memoised supports", "skmine/itemsets/slim.py:SLIM.get_support"),
     ("state kept between fits", "skmine/graph/graphmdl/graph_mdl.py:GraphMDL.fit, _init_graph_mdl; skmine/periodic/cycles.py:PeriodicPatternMiner.fit")])

add("C08", "Fitted models survive a checkpoint and restart unchanged",
    "Any fitted estimator (LCM, LCMMax, SLIM, SlimClassifier, SLIMVectorizer, MBDLLBorder, MDLPDiscretizer, PeriodicPatternMiner, GraphMDL) that is pickled, deep-copied or shipped to another process and restored answers every query exactly as the original does. Later fits or updates on one of the two never change the answers of the other.",
    ["histories", "crash_points", "inputs"],
    "every fitted model, every position of a checkpoint/restart in a history of fits and queries, and every later operation on either copy",
    "no test serialises a fitted model",
    ["skmine/itemsets/slim.py", "skmine/itemsets/lcm.py", "skmine/periodic/cycles.py", "skmine/preprocessing/mdlp_discretizer.py", "skmine/emerging/mbdldorber.py"],
    [("code table whose sort key is a bound method of its owner", "skmine/itemsets/slim.py:SLIM.prefit"),
     ("index structures", "skmine/itemsets/lcm.py:LCM.fit"), ("patterns", "skmine/periodic/pattern.py:Pattern")])

add("C09", "Periodic mining is lossless: patterns plus residuals give back the log",
    "For every event log (integer or zone-less datetime index, any time scale, simultaneous events, repeated occurrences, any arrival order) and both settings of complex and auto_time_scale, a completed fit partitions the de-duplicated log: each occurrence is given back exactly once, with its original timestamp and event, by reconstruct() together with get_residuals(), including when there are no patterns or no residuals. Selecting patterns by id, the occurrences returned by reconstruct(ids) and get_residuals(ids) likewise partition the log. Each row of the pattern table describes its pattern's occurrences (t0 is the first of them; a simple cycle's t0, period and corrections give all of them), and all these answers are stable under any earlier fits, queries, exports and imports on the same miner and under concurrent queries.",
    ["histories", "inputs", "configurations"],
    "every log, parameter setting and history of fits/queries on the miner",
    "tests reconstruct three fixed logs once each; two CI scripts check two downloaded datasets",
    ["skmine/periodic/cycles.py", "skmine/periodic/pattern.py", "skmine/periodic/pattern_collection.py", "skmine/periodic/data_sequence.py", "skmine/periodic/run_mine.py"],
    [("time rescaling", "skmine/periodic/cycles.py:autoscale_time_unit"),
     ("occurrence expansion with corrections", "skmine/periodic/pattern.py:Pattern.getOccs"),
     ("residual computation", "skmine/periodic/pattern_collection.py:PatternCollection.getUncoveredOccs")])

add("C10", "Exported periodic patterns survive crashes and import back identically",
    "A pattern file written by an export that returned normally, imported into any miner with the same parameters (fresh or already used), gives the same pattern table, reconstruction and residuals as the exporting miner, and exporting again gives an equivalent file. If the export fails or the process dies at any point, importing the file either raises or yields exactly one complete exported state, never a mixture or an older miner's leftovers. An import that raises leaves the miner's own model unchanged, and exporting never changes the exporter.",
    ["crash_points", "fault_sequences", "histories", "inputs"],
    "every log, every history of fit/transform/export/import on several miners, and an I/O error, short write or crash at every file operation",
    "tests mock open() and compare one JSON string; no crash, failure, re-import or re-export is exercised",
    ["skmine/periodic/cycles.py"],
    [("writer", "skmine/periodic/cycles.py:PeriodicPatternMiner.export_patterns"),
     ("reader", "skmine/periodic/cycles.py:PeriodicPatternMiner.import_patterns"),
     ("pattern tree serialisation", "skmine/periodic/pattern_collection.py:PatternCollection.output_detailed")])

add("C11", "GraphMDL is anytime: it ends with a valid cover no worse than the start",
    "For every labelled directed graph (without self-loops or identical parallel edges), time budget and clock behaviour, GraphMDL.fit terminates, its description length never exceeds the initial one and equals the one recomputed by covering the graph afresh with the final code table. Every edge of the graph is covered exactly once and every vertex label at least once by the used embeddings of the patterns together with the singletons, patterns() reports exactly the patterns and singletons in use, and discover() shows that model: a rewritten graph in which each embedding is connected, through ports, to exactly the data vertices it shares with others. Vertex names, edge keys and the spelling of labels make no difference. Without a budget the result does not depend on the clock, and with one, at most one candidate is evaluated after the clock has passed the deadline. A fit does not depend on timeouts or graphs used in earlier fits.",
    ["schedules", "inputs", "histories", "fault_sequences"],
    "every graph, timeout, clock reading sequence and history of fits",
    "tests fit a few fixed graphs once with the real clock; non-termination and deadline handling need particular candidate sequences and clock readings",
    ["skmine/graph/graphmdl/graph_mdl.py", "skmine/graph/graphmdl/code_table.py", "skmine/graph/graphmdl/code_table_row.py", "skmine/graph/graphmdl/utils.py"],
    [("search loop with deadline", "skmine/graph/graphmdl/graph_mdl.py:GraphMDL._anytime_graph_mdl_with_timeout"),
     ("cover markers", "skmine/graph/graphmdl/code_table.py:CodeTable.cover"),
     ("pruning", "skmine/graph/graphmdl/graph_mdl.py:GraphMDL._pruning")])

add("C12", "Dataset cache: a fetch returns the whole dataset or fails, never part of it",
    "For the FIMI/CGI fetchers and the health-app, Canadian-TV and UbiqLog fetchers, under any sequence of network failures, truncated transfers, disk errors, interrupts, crashes and concurrent fetches sharing one data folder, every fetch that returns gives exactly the dataset served by the origin, whether freshly downloaded or read from the cache. Once faults stop the next fetch succeeds without manual clean-up, and once one has returned the dataset is served from the cache without network. No fetch changes the process's working directory.",
    ["fault_sequences", "crash_points", "schedules", "histories"],
    "every dataset content, fetcher, and every placement of network, disk and process faults over a history of fetches",
    "tests mock listdir and read_csv; ten download tests need the network; no partial download or crash is ever exercised",
    ["skmine/datasets/fimi.py", "skmine/datasets/periodic.py", "skmine/datasets/_base.py"],
    [("download into the cache folder", "skmine/datasets/fimi.py:fetch_any"),
     ("read from URL then write cache", "skmine/datasets/periodic.py:fetch_health_app, fetch_canadian_tv"),
     ("multi-step shell pipeline guarded by a directory's existence", "skmine/datasets/periodic.py:fetch_ubiq")])

add("C13", "MDLP discretisation is reproducible under any worker schedule and RNG history",
    "With a given integer random_state, MDLPDiscretizer's cut points, the discretised matrix and their column association are the same for every number of workers, task order and grouping, every earlier use of numpy's global generator and every earlier fit, and equal those of the sequential per-column algorithm on the shuffled data; when no value is shared by two labels they do not depend on random_state at all. transform maps each value to the number of its column's cut points that lie strictly below it, for arrays and data frames alike, and a failing worker makes the call raise rather than return.",
    ["schedules", "inputs", "fault_sequences", "configurations"],
    "every matrix, label vector, random_state, n_jobs, task schedule, worker failure and RNG history",
    "tests run iris-like fixed data sequentially; nothing varies the schedule or the global RNG",
    ["skmine/preprocessing/mdlp_discretizer.py", "skmine/utils.py"],
    [("per-column fan-out", "skmine/preprocessing/mdlp_discretizer.py:MDLPDiscretizer.fit, transform"),
     ("shuffle", "skmine/utils.py:_check_random_state")])

add("C14", "Emerging-pattern enumeration is complete under any worker schedule",
    "For every labelled transactional database and parameters, MBDLLBorder.discover run with any number of workers, in whatever order and grouping their tasks run and finish, returns for each border pair exactly the proper subsets of the right side that have at least min_size items and are not contained in a left-side itemset, borders in fit order and bigger patterns first, each once per border. The borders are those given by the maximal itemsets of the two collections, and a failing worker makes the call raise rather than return part of the patterns.",
    ["schedules", "inputs", "fault_sequences", "configurations"],
    "every database, label vector, min_supp, growth rate, min_size, n_jobs, task schedule and worker failure",
    "tests enumerate two fixed borders sequentially",
    ["skmine/emerging/mbdldorber.py", "skmine/utils.py"],
    [("per-border fan-out", "skmine/emerging/mbdldorber.py:MBDLLBorder.discover"),
     ("border differential", "skmine/emerging/mbdldorber.py:border_diff, mbdllborder")])

add("C15", "Library calls leave process-global state and caller data untouched",
    "Whether it completes, is rejected, is interrupted or runs concurrently with other calls, no fit/transform/discover/predict/fetch call leaves behind a changed pandas option, numpy global random state (when an integer random_state is given or the algorithm is deterministic), working directory, warning filter, numpy error or print setting, recursion limit, signal handler, standard stream, default socket timeout or environment variable, and none modifies the data set, label vector, or parameter objects that the caller passed in.",
    ["schedules", "fault_sequences", "inputs", "histories"],
    "every estimator and dataset helper, valid and invalid inputs, exceptions raised at any point inside the call, and interleavings with other calls",
    "tests never inspect global state after a call, let alone after a rejected or interrupted one",
    ["skmine/utils.py", "skmine/itemsets/slim.py", "skmine/periodic/cycles.py", "skmine/datasets/periodic.py", "skmine/preprocessing/mdlp_discretizer.py", "skmine/datasets/_samples_generator.py"],
    [("temporary global pandas option", "skmine/utils.py:_check_D_sklearn"),
     ("global numpy generator", "skmine/utils.py:_check_random_state"),
     ("working directory change", "skmine/datasets/periodic.py:fetch_ubiq")])

add("C16", "Callbacks fire exactly once per call with the call's result",
    "After CallBacks are attached to an object, every completed call of an attached method - made by user code or by the object itself, in any history including nested calls, attachments to several objects, and callbacks that raise any exception - runs each callback attached to it exactly once, in attachment order, after the method, with that call's own result (and the object if requested), and returns the method's result unchanged. A method that raises triggers no callback, and an exception raised by a callback propagates to the caller after that single invocation.",
    ["histories", "fault_sequences", "programs"],
    "every program of attachments and method calls, every callback signature supported, every exception raised by method or callback",
    "tests attach a few well-behaved callbacks and call once",
    ["skmine/callbacks.py"],
    [("post-call wrapper", "skmine/callbacks.py:post"), ("attachment", "skmine/callbacks.py:CallBacks.__call__")])

add("C17", "Seeded sample generation is reproducible whatever else uses randomness",
    "With an integer random_state, make_transactions and make_classification return the same data (order and labels included) on every call, however numpy's global generator was used before, during or by other threads, and without consuming it. Every generated transaction consists of distinct items from the declared range, make_transactions returns the requested number of transactions and make_classification the requested number of classes with one label per transaction.",
    ["schedules", "histories", "configurations"],
    "every parameter setting, seed, state of the global generator and interleaving with other users of it",
    "tests generate a few datasets once with the global generator in its start state",
    ["skmine/datasets/_samples_generator.py"],
    [("transaction generator", "skmine/datasets/_samples_generator.py:make_transactions"),
     ("shuffle", "skmine/datasets/_samples_generator.py:make_classification")])

add("C18", "Independent estimators running in different threads do not affect each other",
    "When several threads of one process each fit and query their own estimators (any mix of LCM, LCMMax, SLIM, SlimClassifier, SLIMVectorizer, MBDLLBorder, MDLPDiscretizer, PeriodicPatternMiner, GraphMDL), sharing only read-only input data, every thread gets exactly the results and exceptions it would get running alone, for every interleaving of the threads.",
    ["schedules", "inputs", "histories"],
    "every mix of estimators and data and every interleaving at statement granularity",
    "all tests are single-threaded",
    ["skmine/utils.py", "skmine/itemsets/slim.py", "skmine/itemsets/lcm.py", "skmine/periodic/pattern.py", "skmine/graph/graphmdl/code_table.py"],
    [("process-wide option toggled during validation", "skmine/utils.py:_check_D_sklearn"),
     ("module- and class-level state", "skmine/periodic/*.py, skmine/graph/graphmdl/*.py"),
     ("memo shared by all instances", "skmine/itemsets/slim.py:SLIM.get_support")])

add("C19", "Concurrent queries on one fitted miner do not mix",
    "On a fitted LCM, LCMMax, MBDLLBorder, MDLPDiscretizer, PeriodicPatternMiner or GraphMDL every query (transform with any options, discover, reconstruct, get_residuals, draw_pattern, patterns, description lengths) returns exactly what it returns when made alone, whatever other queries with whatever arguments run at the same time on the same object in other threads, and whichever queries were interrupted before. No query changes what later queries answer.",
    ["schedules", "histories", "inputs"],
    "every fitted model, every set of concurrent queries and every interleaving of them",
    "tests query from one thread, and hardly ever twice with different options",
    ["skmine/itemsets/lcm.py", "skmine/emerging/mbdldorber.py", "skmine/preprocessing/mdlp_discretizer.py", "skmine/periodic/cycles.py", "skmine/graph/graphmdl/graph_mdl.py"],
    [("per-call options", "skmine/itemsets/lcm.py:LCM.transform"), ("pattern set", "skmine/graph/graphmdl/graph_mdl.py:patterns"),
     ("queries", "skmine/periodic/cycles.py:PeriodicPatternMiner")])

add("C20", "Loading a local data file gives exactly what the file holds, or raises",
    "Loading a local file (fimi.fetch_file, periodic.fetch_file, the GraphMDL graph file reader) returns exactly the records the file holds at the time of the call, in order, whatever was loaded before from it or from other files, whatever the caller did to earlier results, whichever other loads run at the same time and however the disk chunks its reads. A value that is not the number the format promises makes the load raise. A read error or an interrupt never makes a load return only part of a file, the next load of it is whole again, and loading never changes the file.",
    ["fault_sequences", "histories", "schedules", "inputs"],
    "every well-formed file, every history of loads and edits, every read failure and chunking, every interleaving of loads",
    "tests load one fixed file once from a healthy disk",
    ["skmine/datasets/fimi.py", "skmine/datasets/periodic.py", "skmine/graph/graphmdl/utils.py"],
    [("transactions", "skmine/datasets/fimi.py:fetch_file"), ("event logs", "skmine/datasets/periodic.py:fetch_file"),
     ("graphs", "skmine/graph/graphmdl/utils.py:get_graph_from_file")])

add("C21", "Parameters stay what the user set, and the next fit obeys them",
    "For every estimator (LCM, LCMMax, SLIM, SlimClassifier, SLIMVectorizer, MBDLLBorder, MDLPDiscretizer, PeriodicPatternMiner, GraphMDL), get_params always reports the parameters given to the constructor and to set_params since, whatever fits, queries, rejected inputs, interrupts, worker schedules and interactive updates took place; the objects passed as parameters are not modified. set_params takes effect on the next fit, which then answers like a new object with those parameters (SlimClassifier's and SLIMVectorizer's items, pruning and the like reach the SLIM models they build), and refuses a name that does not exist without setting it. sklearn's clone, copy.copy, copy.deepcopy, pickling and rebuilding from get_params give an estimator of the same class with the same parameters.",
    ["histories", "fault_sequences", "schedules", "configurations"],
    "every history of fits, queries, failures, interrupts, parameter changes and copies, every parameter value",
    "tests read parameters back from new objects; a fit that rewrites a parameter (a resolved support, a shortened list) or a copy that drops one shows only after particular calls",
    ["skmine/base.py", "skmine/itemsets/lcm.py", "skmine/itemsets/slim.py", "skmine/itemsets/slim_classifier.py", "skmine/feature_extraction/slim_vectorizer.py", "skmine/emerging/mbdldorber.py", "skmine/preprocessing/mdlp_discretizer.py", "skmine/periodic/cycles.py", "skmine/graph/graphmdl/graph_mdl.py"],
    [("get and set", "skmine/base.py:BaseMiner.set_params"), ("copies", "skmine/itemsets/slim.py:SLIM.__copy__"),
     ("relative support resolved at fit", "skmine/itemsets/lcm.py:LCM.fit")])

# -- pure functions of their input: nothing for a simulator to decide ---------------------------------------------
add("N01", "Array and graph helpers compute their mathematical definition",
    "sliding_window_view, intersect2d, bron_kerbosch, filter_minimal and filter_maximal return the value of their mathematical definition for every input.",
    ["inputs"], "every input value", "tests sample a few inputs",
    ["skmine/utils.py"], [("helpers", "skmine/utils.py")])
add("N02", "MDL code-length formulas match the published definitions",
    "The code lengths of cycles, patterns, labels, ports and rewritten graphs used as optimisation criteria equal the formulas published for the respective methods.",
    ["inputs"], "every pattern and data value", "tests check a few hand-computed values",
    ["skmine/periodic/class_patterns.py", "skmine/periodic/pattern.py", "skmine/graph/graphmdl/utils.py", "skmine/graph/graphmdl/label_codes.py"],
    [("cost functions", "skmine/periodic/class_patterns.py, skmine/graph/graphmdl/utils.py")])
add("N03", "Dataset descriptions compute their definition",
    "describe and describe_logs return the documented statistics for every dataset.",
    ["inputs"], "every dataset", "tests sample a few datasets",
    ["skmine/datasets/utils.py"], [("statistics", "skmine/datasets/utils.py")])
add("N04", "Emerging patterns reported satisfy the growth-rate definition",
    "Every pattern MBDLLBorder reports has a support in the second collection at least min_growth_rate times its support in the first.",
    ["inputs"], "every labelled database", "tests check two fixed databases",
    ["skmine/emerging/mbdldorber.py"], [("border interpretation", "skmine/emerging/mbdldorber.py:borders_to_patterns")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

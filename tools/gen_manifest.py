"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
TECH = "deterministic simulation with fault injection: seeded search over %s"
WHAT = {
    "C01": "joblib worker schedules, batch groupings and worker failures; oracle: brute-force closed itemsets",
    "C02": "joblib worker schedules, batch groupings and worker failures; oracle: brute-force maximal itemsets",
    "C03": "disk faults, crash points, worker schedules/failures and concurrent writers on a simulated disk",
    "C04": "clock scripts (jumps, stalls, backward steps) and time budgets; oracle: recomputed greedy cover and MDL sizes",
    "C05": "interactive operation histories; oracle: recomputed greedy cover and MDL sizes",
    "C06": "thread interleavings of reader calls; oracle: executable reference of the fitted code table",
    "C07": "call histories with rejected and interrupted fits; oracle: same fit on a fresh object",
    "C08": "checkpoint/restart points in call histories; oracle: the original object and a fresh process",
    "C09": "event arrival orders, call histories and interrupts; oracle: partition of the de-duplicated log",
    "C10": "disk faults and crash points during export/import histories; oracle: the exporting miner",
    "C11": "clock scripts, time budgets and fit histories under a step budget; oracle: fresh cover of the graph",
    "C12": "network faults, disk faults, crash points, interrupts and concurrent fetches; oracle: the simulated origin",
    "C13": "joblib worker schedules, worker failures and RNG histories; oracle: sequential per-column reference",
    "C14": "joblib worker schedules and failures; oracle: executable border reference",
    "C15": "rejections, interrupts, worker failures and thread interleavings; oracle: snapshot of global state and inputs",
    "C16": "call histories with nested calls and raising callbacks; oracle: expected invocation log",
    "C17": "RNG histories and thread interleavings around generator calls; oracle: the isolated call",
    "C18": "thread interleavings of independent estimators; oracle: each thread run alone",
    "C19": "thread interleavings and interrupts of queries on one fitted miner; oracle: the same query made alone",
    "C20": "read errors, short reads, interrupts, edits and concurrent loads on a simulated disk; oracle: the bytes in the file",
    "C21": "histories of fits, interrupts, worker schedules, parameter changes and copies; oracle: the parameters last set and the same fit on a new object",
}
NA = {
    "N01": "pure functions of their arguments: no schedule, time, I/O, randomness or history for a simulator to decide",
    "N02": "pure arithmetic on its arguments; optimisation criteria are only claimed through C04/C05/C11 where clocks and histories matter",
    "N03": "pure functions of a data set; no concurrency, time, fault or history is involved (loading files is in C12 and C20)",
    "N04": "pure function of the data; depends on no schedule, clock, I/O or history (schedules of the enumeration are in C14)",
}
checks = []
na = [{"property": k, "reason": v} for k, v in NA.items()]
only = [p["id"] for p in props]
for i in only:
    if i in NA:
        continue
    if not os.path.exists(os.path.join(here, "sim/props/%s.py" % i.lower())):
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({"property": i, "quick_cmd": "bash /verif/check.sh %s quick" % i,
                   "thorough_cmd": "bash /verif/check.sh %s thorough" % i,
                   "technique": TECH % WHAT[i], "level": "exploration",
                   "level_note": "seeded search, not exhaustive: the property held on every simulated run of the stated "
                   "number of seeds; evidence/%s.json counts runs, schedules and faults fired" % i})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: every seam is installed from /verif before skmine is imported",
               "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Replay a violation with: bash /verif/check.sh any replay <file>. VERIF_SEED selects the master seed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)

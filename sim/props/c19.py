"""C19: concurrent readers of fitted miners other than SLIM's."""
import contextlib
import io
import random
import warnings

import numpy as np
import pandas as pd

from .. import zoo
from ..choose import Chooser
from ..sched import StepBudget, ThreadSched, bounded, interrupt
from ..seams import Clock, Sim
from .c07 import hash_of, usable

ID = "C19"
QUICK, THOROUGH = 4000, 120000
RULE = "a run counts if threads were switched between reader calls on one model; distinct by the switches and the answers"
SHRINK = ["threads", "threads.0", "threads.1", "threads.2", "d.rows"]
SCHED_MEASURE = "distinct sequences of (preempted thread, source line, next thread)"
REAL = ["skmine.itemsets.lcm, emerging, preprocessing, periodic, graph from /repo", "joblib's sequential path", "pandas"]
STUB = ["thread scheduler (one thread at a time, preempted at seeded source lines)", "clock", "interrupts of single calls"]
ASSUMES = ["preemption happens between source lines of skmine", "n_jobs=1 (worker schedules are in C01, C02, C13, C14)"]
KINDS = ["lcm", "lcm", "lcmmax", "lcmmax", "mbdll", "mdlp", "mdlp", "periodic", "periodic", "graph"]


def call(kind, rng):
    if kind in ("lcm", "lcmmax"):
        return {"q": "transform", "tids": rng.random() < 0.5, "lex": rng.random() < 0.6, "len": rng.choice([-1, -1, 1, 2, 3]),
                "pos": rng.random() < 0.25}
    if kind == "mbdll":
        return {"q": rng.choice(["discover", "discover", "discover", "borders"]), "size": rng.choice([1, 2, 3, 4])}
    if kind == "mdlp":
        return {"q": rng.choice(["transform", "transform", "transform", "discover", "cuts"]), "r": rng.randrange(1 << 20),
                "n": rng.randint(1, 8), "shuffle": rng.random() < 0.5}
    if kind == "periodic":
        return {"q": rng.choice(["rec", "rec", "res", "table", "table", "draw", "recid", "resid"]), "ids": rng.randrange(1 << 12),
                "sort": rng.choice(["time", "event", "construction_order"]), "dE": rng.random() < 0.5,
                "chrono": rng.random() < 0.5}
    return {"q": rng.choice(["patterns", "patterns", "dl", "dl0", "discover", "all"])}


def plan(rng, tier):
    kind = rng.choice(KINDS)
    d = zoo.data(kind, rng, size=1.0)
    if kind == "graph":
        d["timeout"] = None
    threads = [[call(kind, rng) for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([2, 3, 3, 4]))]
    p = {"kind": kind, "d": d, "warm": rng.random() < 0.4, "params": zoo.params(kind, rng), "threads": threads,
         "gap": rng.choice([1, 2, 5, 12, 40, -1, -1, -1])}
    if rng.random() < 0.15:
        p["intr"] = {"call": call(kind, rng), "at": int(10 ** rng.uniform(0, 2.5))}
    return p


def ask(est, kind, args, c, n):
    """One reader call."""
    q = c["q"]
    if kind in ("lcm", "lcmmax"):
        if c["pos"]:
            df = est.transform(args[0], c["tids"], c["lex"], c["len"])
        else:
            df = est.transform(args[0], return_tids=c["tids"], lexicographic_order=c["lex"], max_length=c["len"])
        srt = [list(x) == sorted(x) for x in df["itemset"]] if c["lex"] else None
        return (zoo.unordered(df), srt)
    if kind == "mbdll":
        return est.discover(min_size=c["size"]) if q == "discover" else est.borders_
    if kind == "mdlp":
        if q == "discover":
            return est.discover()
        if q == "cuts":
            return est.cut_points_
        r = random.Random(c["r"])
        X = args[0]
        m = X.shape[1]
        rows = np.array([[r.choice([r.uniform(-5, 30), r.randint(0, 25)]) for _ in range(m)] for _ in range(c["n"])])
        if isinstance(X, pd.DataFrame):
            cols = list(X.columns)
            rows = pd.DataFrame(rows, columns=cols)
            if c["shuffle"]:
                r.shuffle(cols)
                rows = rows[cols]
        return est.transform(rows)
    if kind == "periodic":
        ids = [i for i in range(n) if c["ids"] >> (i % 12) & 1]
        if q == "rec":
            return est.reconstruct(sort=c["sort"])
        if q == "res":
            return est.get_residuals(sort=c["sort"])
        if q == "recid":
            return est.reconstruct(ids, sort=c["sort"])
        if q == "resid":
            return est.get_residuals(ids, sort=c["sort"])
        if q == "table":
            return est.transform(None, dE_sum=c["dE"], chronological_order=c["chrono"])
        if not n:
            return None
        return est.draw_pattern(c["ids"] % n).source
    if q == "patterns":
        return sorted((zoo.canon(g) for g in est.patterns()), key=repr)
    if q == "dl":
        return est.description_length()
    if q == "dl0":
        return est.initial_description_length()
    if q == "discover":
        est.discover()
        return None
    return (est.description_length(), sorted((zoo.canon(g) for g in est.patterns()), key=repr))


def observed(fn):
    try:
        return ("value", zoo.canon(fn()))
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:120])


def execute(p, ctx):
    warnings.simplefilter("ignore")
    kind, th = p["kind"], p["threads"]
    if not th or not all(th) or not usable(p["d"]):
        ctx.nontrivial = False
        return
    est, alone = zoo.make(kind, p["params"]), zoo.make(kind, p["params"])
    args = zoo.inputs(kind, p["d"])
    if not p["warm"]:  # draw_pattern is only allowed after a first transform
        th = [[dict(c, q="table") if c["q"] == "draw" else c for c in t] for t in th]
    with Sim(clock=Clock()), contextlib.redirect_stdout(io.StringIO()):
        _, (st, v) = bounded(lambda: [zoo.fit(e, kind, args) for e in (est, alone)], 6_000_000)
        if st == "exc":
            ctx.nontrivial = False  # a failing or endless fit is judged elsewhere
            ctx.count("reach:no-model")
            if isinstance(v, (Exception, StepBudget)):
                return
            raise v
        n = len(alone.transform(None)) if kind == "periodic" else 0
        want = [[observed(lambda: ask(alone, kind, args, c, n)) for c in t] for t in th]
        if p["warm"]:
            if kind == "periodic":
                est.transform(None)
            for t in th:
                for c in t:
                    observed(lambda: ask(est, kind, args, c, n))
    for t in want:
        for w in t:
            if w[0] == "raised":
                ctx.count("reach:raising-query")
    ch = Chooser(p["sched_seed"], p["choices"])
    ctx.choices_rec = ch.rec
    sch = ThreadSched(ch, mean_gap=p["gap"], budget=8_000_000)
    with Sim(clock=Clock(), sched=sch), contextlib.redirect_stdout(io.StringIO()):
        if p.get("intr"):
            ctx.count("planned:interrupt")
            c = p["intr"]["call"]
            if c["q"] == "draw" and not p["warm"]:
                c = dict(c, q="rec")
            fired, _ = interrupt(lambda: ask(est, kind, args, c, n), p["intr"]["at"], KeyboardInterrupt("simulated"))
            if fired:
                ctx.count("fault:interrupt")
        outs = sch.run([lambda t=t: [observed(lambda: ask(est, kind, args, c, n)) for c in th[t]] for t in range(len(th))])
    ctx.count("fault:thread-switch", len(sch.switches))
    ctx.count("reach:" + kind)
    ctx.sim_time += sch.steps * 1e-6
    ctx.sched_key = repr([s[1:] for s in sch.switches])[:6000]
    ctx.event([s[:3] for s in sch.switches], hash_of(tuple(map(tuple, want))))
    ctx.nontrivial = len(sch.switches) > len(th)
    for t in range(len(th)):
        st, v = outs[t]
        if st == "exc":
            if type(v).__name__ == "HarnessError":
                raise v
            ctx.fail("reader-fails", "%s: a reader ended with %s: %s" % (kind, type(v).__name__, str(v)[:200]))
        for c, got, w in zip(th[t], v, want[t]):
            ctx.check(got == w, "mixed-up", lambda: "%s: %r answers differently next to the readers %r: %s" % (
                kind, c, [x for i, y in enumerate(th) if i != t for x in y][:4], zoo.first_diff(w, got)))
    with Sim(clock=Clock()), contextlib.redirect_stdout(io.StringIO()):
        again = [[observed(lambda: ask(est, kind, args, c, n)) for c in t] for t in th]
    ctx.check(again == want, "changed", lambda: "%s: after the readers the model answers differently: %s" % (
        kind, zoo.first_diff(tuple(map(tuple, want)), tuple(map(tuple, again)))))

"""C09: periodic mining is lossless after any history and for concurrent readers."""
import numpy as np
import pandas as pd
from skmine.periodic import PeriodicPatternMiner

from .. import gen
from ..choose import Chooser
from ..sched import ThreadSched, interrupt
from ..seams import Clock, Disk, Scratch, Sim

ID = "C09"
QUICK, THOROUGH = 2500, 80000
RULE = "a run counts if the judged fit found at least one pattern; distinct by digest of history, schedule and answers"
SHRINK = ["threads", "hist", "log.occ", "threads.0", "threads.1"]
SCHED_MEASURE = "distinct sequences of (preempted thread, source line, next thread)"
REAL = ["skmine.periodic from /repo", "pandas"]
STUB = ["thread scheduler", "clock", "disk of the export/import steps of the history"]
ASSUMES = ["timestamps are integers or naive datetimes that fit in 64 bits of nanoseconds",
           "events are strings or integers, not both in one log"]


def query(rng):
    return {"q": rng.choice(["rec", "rec", "res", "both", "both", "ids", "ids", "table", "table"]),
            "ids": rng.randrange(1 << 12), "sort": rng.choice(["time", "time", "event", "construction_order"]),
            "dup": rng.choice([None, None, True, False]), "dE": rng.random() < 0.5, "chrono": rng.random() < 0.6}


def plan(rng, tier):
    hist = []
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5])):
        r = rng.random()
        if r < 0.35:
            hist.append({"op": "fit", "log": gen.log(rng)})
        elif r < 0.55:
            hist.append({"op": "intr", "log": gen.log(rng), "at": int(10 ** rng.uniform(0, 4)),
                         "exc": rng.choice(["KeyboardInterrupt", "MemoryError"])})
        elif r < 0.65:
            hist.append({"op": "bad", "what": rng.choice(["list", "none", "short"])})
        elif r < 0.8:
            hist.append({"op": "query", "q": query(rng)})
        else:
            hist.append({"op": rng.choice(["export", "import"])})
    nt = rng.choice([1, 1, 2, 3])
    return {"complex": rng.random() < 0.65, "auto": rng.random() < 0.65, "hist": hist,
            "log": gen.log(rng, max_ev=4, size=1.3, long_rate=0.02),
            "threads": [[query(rng) for _ in range(rng.randint(1, 4))] for _ in range(nt)],
            "gap": rng.choice([2, 6, 20, 80, -1, -1]), "focus": rng.random() < 0.9}


def pick_ids(bits, n):
    return [i for i in range(n) if bits >> (i % 12) & 1]


def ask(m, q, n):
    """The raw answers of one query; m may be shared by several threads."""
    k = q["q"]
    if k == "rec":
        return m.reconstruct(sort=q["sort"], drop_duplicates=q["dup"])
    if k == "res":
        return m.get_residuals(sort=q["sort"])
    if k == "both":
        return m.reconstruct(), m.get_residuals()
    if k == "ids":
        ids = pick_ids(q["ids"], n)
        return m.reconstruct(ids), m.get_residuals(ids)
    return m.transform(None, dE_sum=q["dE"], chronological_order=q["chrono"])


def _int(v):
    if isinstance(v, (pd.Timestamp, pd.Timedelta)):
        return int(v.as_unit("ns").value)
    if isinstance(v, np.datetime64):
        return int(v.astype("datetime64[ns]").astype("int64"))
    if isinstance(v, np.timedelta64):
        return int(v.astype("timedelta64[ns]").astype("int64"))
    return int(v)


def partition(ctx, what, rec, res, want):
    a, b = gen.occ_list(rec), gen.occ_list(res)
    if sorted(a + b) != want:
        lost = [o for o in want if o not in set(a + b)]
        extra = [o for o in a + b if o not in set(want)]
        twice = [o for o in set(a + b) if (a + b).count(o) > 1]
        ctx.fail("not-lossless", "%s: reconstruct and get_residuals do not partition the log: lost %r, invented %r, "
                 "repeated %r" % (what, lost[:4], extra[:4], sorted(twice)[:4]))
    ctx.count("checks")


def judge(ctx, what, q, v, want, m, all_rec):
    k = q["q"]
    if k in ("both", "ids"):
        return partition(ctx, "%s %s" % (what, k), v[0], v[1], want)
    if k in ("rec", "res"):
        a = gen.occ_list(v)
        full = all_rec if k == "rec" else [o for o in want if o not in set(all_rec)]
        ctx.check(set(a) == set(full), "unstable", lambda: "%s: %s gives other occurrences than reconstruct(): %r" % (
            what, k, sorted(set(a) ^ set(full))[:4]))
        dd = q["dup"] if q["dup"] is not None else q["sort"] != "construction_order"
        if k == "res" or dd:
            ctx.check(len(a) == len(set(a)), "repeated", "%s: an occurrence is given twice" % what)
        else:  # with the repetitions, whatever the order
            each = [gen.occ_list(m.reconstruct([i], sort="construction_order")) for i in range(len(m.miners_.getPatterns()))]
            ctx.check(sorted(a) == sorted(sum(each, [])), "repeated", lambda: "%s: not the occurrences of each pattern with their "
                      "repetitions: %d instead of %d" % (what, len(a), sum(map(len, each))))
        if q["sort"] == "time":
            ctx.check([t for t, _ in a] == sorted(t for t, _ in a), "order", "%s: not in time order" % what)
        if q["sort"] == "event":
            ctx.check([e for _, e in a] == sorted(e for _, e in a), "order", "%s: not in event order" % what)
        return
    n = len(m.miners_.getPatterns())
    ctx.check(len(v) == n, "table", lambda: "%s: %d rows in the table for %d patterns" % (what, len(v), n))
    if not n:
        return
    if q["chrono"]:
        ts = [_int(t) for t in v["t0"]]
        ctx.check(ts == sorted(ts), "order", "%s: table not in chronological order" % what)
    ctx.check(sorted(v.index) == list(range(n)), "table", lambda: "%s: ids %r" % (what, list(v.index)))
    for i in v.index:
        occ = [t for t, _ in gen.occ_list(m.reconstruct([i], sort="construction_order"))]
        t0, p, r = _int(v.at[i, "t0"]), _int(v.at[i, "period_major"]), int(v.at[i, "repetition_major"])
        ctx.check(occ[0] == t0, "table", lambda: "%s: pattern %d starts at %r in the table, its first occurrence is %r" %
                  (what, i, t0, occ[0]))
        if len(occ) == r and not q["dE"]:
            E = [_int(e) for e in v.at[i, "E"]]
            exp = [t0]
            for e in E:
                exp.append(exp[-1] + p + e)
            ctx.check(exp == occ, "table", lambda: "%s: simple cycle %d of the table (t0=%r p=%r E=%r) gives %r, "
                      "reconstruct %r" % (what, i, t0, p, E, exp[:5], occ[:5]))
            ctx.count("reach:simple-row")
        elif len(occ) == r and q["dE"]:
            E = sum(abs(b - a - p) for a, b in zip(occ, occ[1:]))
            ctx.check(_int(v.at[i, "sum_E"]) == E, "table", lambda: "%s: simple cycle %d has sum_E %r in the table, its "
                      "occurrences give %r" % (what, i, v.at[i, "sum_E"], E))
        else:
            ctx.count("reach:complex-row")


def execute(p, ctx):
    if len(p["log"]["occ"]) < 2 or not p["threads"] or not all(p["threads"]):
        ctx.nontrivial = False
        return
    m = PeriodicPatternMiner(complex=p["complex"], auto_time_scale=p["auto"])
    import warnings
    warnings.simplefilter("ignore")
    S, want = gen.log_series(p["log"])
    with Scratch() as sc:
        disk = Disk(sc.root)
        for k, h in enumerate(p["hist"]):
            with Sim(clock=Clock(), disk=disk):
                if h["op"] == "fit":
                    o = ctx.call(m.fit, gen.log_series(h["log"])[0])
                    if not o.ok:
                        ctx.fail("exception", "fit raised %r" % (o.exc,))
                elif h["op"] == "intr":
                    X = gen.log_series(h["log"])[0]
                    fired, _ = interrupt(lambda: m.fit(X), h["at"], {"MemoryError": MemoryError}.get(
                        h["exc"], KeyboardInterrupt)("sim"))
                    if fired:
                        ctx.count("fault:" + h["exc"])
                elif h["op"] == "bad":
                    ctx.call(m.fit, {"list": [1, 2, 3], "none": None, "short": pd.Series(["a"])}[h["what"]])
                    ctx.count("fault:rejected-input")
                elif h["op"] == "query":
                    n = len(m.miners_.getPatterns()) if hasattr(m, "miners_") else 0
                    ctx.call(ask, m, h["q"], n)
                elif h["op"] == "export":
                    ctx.call(m.export_patterns, "hist.json")
                else:
                    ctx.call(m.import_patterns, "hist.json")
            ctx.event(k, h["op"])
        with Sim(clock=Clock(), disk=disk):
            ctx.must("exception", "fit", m.fit, S)
    n = len(m.miners_.getPatterns())
    ctx.count("reach:patterns", n)
    with Sim(clock=Clock()):
        rec = ctx.must("exception", "reconstruct", m.reconstruct)
        res = ctx.must("exception", "get_residuals", m.get_residuals)
    partition(ctx, "after fit", rec, res, want)
    all_rec = gen.occ_list(rec)
    ctx.event(all_rec, n)
    if len(all_rec) == len(want):
        ctx.count("reach:no-residual")
    if not all_rec:
        ctx.count("reach:no-pattern")
    ch = Chooser(p["sched_seed"], p["choices"])
    ctx.choices_rec = ch.rec
    # the pattern trees are only read by queries: preempt where the miner and the collection keep state
    sch = ThreadSched(ch, mean_gap=p["gap"], budget=10 ** 8,
                      focus=("cycles.py", "pattern_collection.py") if p["focus"] else None)

    def body(i):
        return [ctx.call(ask, m, q, n) for q in p["threads"][i]]
    if len(p["threads"]) > 1:
        with Sim(clock=Clock(), sched=sch):
            outs = sch.run([lambda i=i: body(i) for i in range(len(p["threads"]))])
    else:
        with Sim(clock=Clock()):
            outs = [("ok", body(0))]
    ctx.count("fault:thread-switch", len(sch.switches))
    ctx.sched_key = repr([h["op"] for h in p["hist"]]) + repr(sch.switches)[:4000]
    ctx.event([s[:3] for s in sch.switches])
    for i, (st, vs) in enumerate(outs):
        if st != "ok":
            raise vs
        for q, o in zip(p["threads"][i], vs):
            what = "query %s of thread %d" % (q["q"], i)
            if not o.ok:
                ctx.fail("exception", "%s raised %s: %s" % (what, type(o.exc).__name__, str(o.exc)[:300]))
            judge(ctx, what, q, o.value, want, m, all_rec)
    ctx.nontrivial = n > 0

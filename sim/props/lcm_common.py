"""C01 / C02: LCM and LCMMax under simulated workers."""
from .. import gen
from ..choose import Chooser
from ..seams import Sim, Clock
from ..simjob import JobSim, user_backend


def plan(rng, tier):
    D = gen.transactions(rng, dup=True, big=0.05, widest=300, **({} if rng.random() < 0.8 else dict(max_t=40, max_i=11)))
    if rng.random() < 0.06:
        D.insert(rng.randrange(len(D) + 1), [])
    calls = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        c = {"tids": rng.random() < 0.5, "lex": rng.random() < 0.7, "max_length": rng.choice([-1, -1, -1, 1, 2, 3]),
             "pos": rng.random() < 0.15, "jobs": gen.job_plan(rng, ntasks=min(10, max(2, len({i for t in D for i in t}))))}
        calls.append(c)
    return {"D": D, "itype": rng.choice(gen.ITYPES), "container": rng.choice(gen.CONTAINERS),
            "min_supp": gen.min_supp(rng, len(D)), "calls": calls, "refit": rng.random() < 0.2}


def rows_of(df, tids):
    out = []
    cols = list(df.columns)
    for rec in zip(*[df[c] for c in cols]):
        r = dict(zip(cols, rec))
        out.append((tuple(r["itemset"]), int(r["support"]), tuple(r["tids"]) if tids else None))
    return out


def canon(rows, lex):
    return [(i if lex else frozenset(i), s, t) for i, s, t in rows]


def reference(rows, ms, maximal, max_length, tids):
    ref = gen.closed_sets(rows, gen.threshold(ms, len(rows)))
    if maximal:
        ref = gen.maximal_sets(ref)
    return {(frozenset(k), len(v), v if tids else None) for k, v in ref.items()
            if max_length == -1 or len(k) <= max_length}


def check_rows(ctx, what, rows, ref, lex):
    got = [(frozenset(i), s, t) for i, s, t in rows]
    for (i, s, t) in rows:
        ctx.check(len(set(i)) == len(i), "malformed-itemset", lambda: "%s: itemset %r repeats an item" % (what, i))
        if lex:
            ctx.check(list(i) == sorted(i), "item-order", lambda: "%s: itemset %r is not sorted" % (what, i))
    ctx.check(len(set(got)) == len(got), "duplicate", lambda: "%s: an itemset is reported twice: %r" % (
        what, [g for g in got if got.count(g) > 1][:3]))
    gs = set(got)
    ctx.check(gs == ref, "wrong-itemsets", lambda: "%s: missing %r, unexpected %r" % (
        what, _fmt(ref - gs), _fmt(gs - ref)))


def _fmt(s):
    return sorted([(sorted(map(str, i)), n, t) for i, n, t in s], key=repr)[:4]


def execute(cls, maximal, p, ctx):
    rows = gen.typed(p["D"], p["itype"])
    if not rows:
        ctx.nontrivial = False
        return
    data = gen.container(rows, p["container"])
    n1 = cls(min_supp=p["min_supp"], n_jobs=1)
    with Sim(clock=Clock()):
        ctx.must("exception", "fit", n1.fit, data)
    est = cls(min_supp=p["min_supp"])
    ch = Chooser(p["sched_seed"], p["choices"])
    keys = []
    try:
        with Sim(clock=Clock()):
            ctx.must("exception", "fit", est.fit, data)
        for k, c in enumerate(p["calls"]):
            j = c["jobs"]
            what = "call %d (n_jobs=%s, %s)" % (k, j["n_jobs"], j["mode"])
            kw = dict(return_tids=c["tids"], lexicographic_order=c["lex"], max_length=c["max_length"])
            args = (data,)
            if c.get("pos"):
                args, kw = (data, c["tids"], c["lex"], c["max_length"]), {}
            ref = reference(rows, p["min_supp"], maximal, c["max_length"], c["tids"])
            with Sim(clock=Clock()):
                base = ctx.must("exception", "single-worker transform", n1.transform, *args, **kw)
            brow = rows_of(base, c["tids"])
            check_rows(ctx, what + " single-worker", brow, ref, c["lex"])
            est.set_params(n_jobs=j["n_jobs"])
            for faults in ([j["faults"], []] if j["faults"] else [[]]):
                js = JobSim(ch, mode=j["mode"], batch=j["batch"], faults=faults, mean_gap=j["gap"],
                            workers=min(4, abs(j["n_jobs"]) if j["n_jobs"] > 0 else 4))
                with Sim(clock=Clock(), jobs=js), user_backend(j["mode"]):
                    o = ctx.call(est.transform, *args, **kw)
                keys.append(js.key())
                ctx.sim_time += js.steps * 1e-6
                if js.calls:
                    ctx.count("reach:parallel-call")
                if len(js.order) > 1 and js.order != sorted(js.order, key=repr):
                    ctx.count("reach:reordered")
                for f in faults:
                    ctx.count("planned:" + f["kind"])
                for f in js.fired:
                    ctx.count("fault:" + f)
                ctx.event(k, js.order, js.fired, repr(o)[:400])
                if js.fired:
                    ctx.check(not o.ok, "silent-failure", lambda: "%s returned a result although %s hit one of its "
                              "tasks" % (what, js.fired))
                    continue
                if not o.ok:
                    ctx.fail("exception", "%s raised %s: %s (no fault was injected%s)" % (
                        what, type(o.exc).__name__, str(o.exc)[:300], ", after an earlier failed call" if
                        j["faults"] and not faults else ""))
                r = rows_of(o.value, c["tids"])
                check_rows(ctx, what, r, ref, c["lex"])
                ctx.check(canon(r, c["lex"]) == canon(brow, c["lex"]), "row-order",
                          lambda: "%s: rows are not in the order of a single-worker run: %r vs %r" % (
                              what, r[:6], brow[:6]))
                ctx.check(list(o.value.columns) == list(base.columns), "columns", "%s: columns differ" % what)
                ctx.count("reach:itemsets", len(r))
            if p.get("refit") and k == 0:
                with Sim(clock=Clock()):
                    ctx.must("exception", "refit", est.fit, data)
    finally:
        ctx.sched_key = str(keys)
        ctx.choices_rec = ch.rec
    ctx.nontrivial = len(keys) > 0 and any(len(t) > 1 for t in rows)


SHRINK = ["calls", "D"]
SCHED_MEASURE = "distinct sequences of (task completion order, batch grouping, thread switch points) over the run"
REAL = ["skmine.itemsets.lcm (whole module, from /repo)", "skmine.base", "joblib.Parallel dispatch, retrieval and "
        "callbacks", "pandas, pyroaring, sortedcontainers"]
STUB = ["joblib worker pools (simulated workers: pickled copies in-process, forked fresh processes, or threads "
        "interleaved at source lines)", "clock"]
ASSUMES = ["items within one database are of one comparable type", "relative thresholds are unambiguous in floating point"]

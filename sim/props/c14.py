"""C14: MBDLLBorder enumeration under simulated workers."""
from itertools import combinations

import numpy as np
import pandas as pd
from skmine.emerging import MBDLLBorder

from .. import gen
from ..choose import Chooser
from ..seams import Clock, Sim
from ..simjob import JobSim, user_backend

ID = "C14"
QUICK, THOROUGH = 8000, 150000
RULE = "a run counts if the fit gave at least one border; distinct by digest of schedule, faults and patterns"
SHRINK = ["calls", "rows"]
SCHED_MEASURE = "distinct (task order, batching, thread switches) sequences"
REAL = ["skmine.emerging.mbdldorber, skmine.itemsets.lcm from /repo", "joblib dispatch and retrieval"]
STUB = ["joblib workers", "clock"]
ASSUMES = ["both relative thresholds are unambiguous in floating point"]


def plan(rng, tier):
    long = rng.random() < 0.005
    if long:  # right sides too long to enumerate in full
        m = rng.randint(14, 17)
        pats = [[sorted(rng.sample(range(m), rng.randint(m - 3, m - 1))) for _ in range(rng.randint(1, 2))] for _ in range(2)]
        rows = [[c, rng.choice(pats[c] if rng.random() < 0.9 else pats[1 - c])] for c in (0, 1) for _ in range(rng.randint(4, 9))]
        rng.shuffle(rows)
    elif rng.random() < 0.025:
        m = rng.randint(10, 13)
        big = rng.choice([8, 8, 11])
        pats = [[sorted(rng.sample(range(m), min(m, rng.randint(2, big)))) for _ in range(rng.choice([2, 3, 4, 9]))] for _ in range(2)]
        rows = [[c, rng.choice(pats[c] if rng.random() < 0.9 else pats[1 - c])] for c in (0, 1) for _ in range(rng.randint(15, 40))]
        rng.shuffle(rows)
    elif rng.random() < 0.3:
        D = gen.transactions(rng, max_t=14, max_i=7, min_t=2)
        rows = [[rng.randrange(2), t] for t in D]
    else:
        # each class has patterns of its own: several borders, hence several tasks
        m = rng.randint(5, 9)
        pats = [[sorted(rng.sample(range(m), rng.randint(2, min(5, m)))) for _ in range(rng.randint(1, 5))]
                for _ in range(2)]
        rows = []
        for c in (0, 1):
            for _ in range(rng.randint(3, 12)):
                t = set(rng.choice(pats[c] if rng.random() < 0.85 else pats[1 - c]))
                if rng.random() < 0.3:
                    t ^= {rng.randrange(m)}
                rows.append([c, sorted(t or {0})])
        rng.shuffle(rows)
    rows[0][0], rows[1][0] = 0, 1
    calls = [{"min_size": rng.randint(m - 5, m - 2) if long else rng.choice([1, 2, 3, 3, 4]), "jobs": gen.job_plan(rng, 0.3, ntasks=4)}
             for _ in range(rng.choice([1, 2]))]
    return {"rows": rows, "itype": rng.choice(gen.ITYPES), "min_supp": rng.choice([0.05, 0.07, 0.1, 0.1, 0.12, 0.15, 0.2, 0.25, 0.3, 0.45]),
            "growth": rng.choice([1.5, 2, 2, 2.2, 3]), "ylab": rng.choice(["int", "str", "list"]), "idx": rng.random() < 0.3, "tup": rng.random() < 0.25,
            "calls": calls}


def clear(f, n):
    return all((s >= f * n) == (s / n >= f) for s in range(n + 1))


def minimal_outside(U, S):
    """Minimal subsets of U contained in no set of S."""
    U = sorted(U)
    out = []
    for k in range(0, len(U) + 1):
        for c in combinations(U, k):
            c = frozenset(c)
            if any(m <= c for m in out):
                continue
            if not any(c <= s for s in S):
                out.append(c)
    return set(out)


def execute(p, ctx):
    y = [r[0] for r in p["rows"]]
    if len(set(y)) != 2:
        ctx.nontrivial = False
        return
    rows = gen.typed([r[1] for r in p["rows"]], p["itype"])
    n1, n2 = y.count(0), y.count(1)
    f1, f2 = p["min_supp"], p["growth"] * p["min_supp"]
    if f2 > 1 or not clear(f1, n1) or not clear(f2, n2):
        ctx.nontrivial = False
        ctx.count("skipped-ambiguous-threshold")
        return
    D = pd.Series([tuple(r) for r in rows] if p["tup"] else rows, index=range(20, 20 + len(rows)) if p["idx"] else None)
    lab = ["neg", "pos"] if p["ylab"] == "str" else [0, 1]
    yy = np.array([lab[v] for v in y])
    if p["idx"]:
        yy = pd.Series(yy, index=D.index)
    est = MBDLLBorder(min_growth_rate=p["growth"], min_supp=p["min_supp"])
    with Sim(clock=Clock()):
        ctx.must("exception", "fit", est.fit, D, yy)
    max1 = set(gen.maximal_sets(gen.closed_sets([r for r, v in zip(rows, y) if v == 0], f1 * n1)))
    max2 = set(gen.maximal_sets(gen.closed_sets([r for r, v in zip(rows, y) if v == 1], f2 * n2)))
    want = {}
    for U in max2:
        if any(e > U for e in max1):
            continue
        want[U] = minimal_outside(U, [U & e for e in max1])
    got = [(frozenset(frozenset(l) for l in L), frozenset(U)) for L, U in est.borders_]
    ctx.check(sorted(map(sorted, [u for _, u in got])) == sorted(map(sorted, want)), "right-borders",
              lambda: "right borders %r, expected %r" % ([sorted(u) for _, u in got], [sorted(u) for u in want]))
    for L, U in got:
        ctx.check(L == want[U], "left-border", lambda: "left border of %r is %r, expected %r" % (
            sorted(U), sorted(map(sorted, L)), sorted(map(sorted, want[U]))))
    ctx.count("reach:borders", len(got))
    ch = Chooser(p["sched_seed"], p["choices"])
    ctx.choices_rec = ch.rec
    keys = []
    for k, c in enumerate(p["calls"]):
        j = c["jobs"]
        exp = []
        for L, U in got:
            pats = [frozenset(q) for s in range(len(U) - 1, c["min_size"] - 1, -1) for q in combinations(sorted(U), s)]
            exp.append([q for q in pats if not any(q <= l for l in L)])
        est.set_params(n_jobs=j["n_jobs"])
        what = "discover(min_size=%d) with n_jobs=%s, %s" % (c["min_size"], j["n_jobs"], j["mode"])
        for faults in ([j["faults"], []] if j["faults"] else [[]]):
            js = JobSim(ch, mode=j["mode"], batch=j["batch"], faults=faults, mean_gap=j["gap"], workers=3)
            with Sim(clock=Clock(), jobs=js), user_backend(j["mode"]):
                o = ctx.call(est.discover, min_size=c["min_size"])
            keys.append(js.key())
            for x in faults:
                ctx.count("planned:" + x["kind"])
            for x in js.fired:
                ctx.count("fault:" + x)
            if len(js.order) > 1 and js.order != sorted(js.order, key=repr):
                ctx.count("reach:reordered")
            ctx.event(js.order, js.fired, o.ok, None if not o.ok else len(o.value))
            if js.fired:
                ctx.check(not o.ok, "silent-failure", lambda: "%s returned although %s hit its tasks" % (what, js.fired))
                continue
            if not o.ok:
                ctx.fail("exception", "%s raised %s: %s without a fault" % (what, type(o.exc).__name__,
                                                                           str(o.exc)[:300]))
            vals = [frozenset(v) for v in o.value]
            ctx.check(all(len(set(v)) == len(v) for v in o.value), "malformed", "%s: a pattern repeats an item" % what)
            total = sum(map(len, exp))
            pos = 0
            for b, e in enumerate(exp):
                part = vals[pos:pos + len(e)]
                pos += len(e)
                ctx.check(sorted(map(sorted, part)) == sorted(map(sorted, e)), "wrong-patterns",
                          lambda: "%s: border %d (right side %r) gives %r, expected %r" % (
                              what, b, sorted(got[b][1]), [sorted(x) for x in part][:6], [sorted(x) for x in e][:6]))
                ctx.check([len(x) for x in part] == sorted((len(x) for x in part), reverse=True), "pattern-order",
                          lambda: "%s: bigger patterns do not come first" % what)
            ctx.check(len(vals) == total, "wrong-patterns", lambda: "%s: %d patterns, expected %d" % (
                what, len(vals), total))
            ctx.count("reach:patterns", total)
    ctx.sched_key = str(keys)
    ctx.nontrivial = len(got) > 0

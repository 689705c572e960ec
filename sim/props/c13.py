"""C13: MDLP discretisation under simulated workers and RNG histories."""
import random

import numpy as np
import pandas as pd
from scipy.stats import entropy
from skmine.preprocessing import MDLPDiscretizer

from .. import gen
from ..choose import Chooser
from ..seams import Clock, Sim
from ..simjob import JobSim, user_backend

ID = "C13"
QUICK, THOROUGH = 6000, 60000
RULE = "a run counts if some column got at least one cut point; distinct by digest of schedule, faults and cut points"
SHRINK = ["fits", "rows"]
SCHED_MEASURE = "distinct (task order, batching, thread switches) sequences"
REAL = ["skmine.preprocessing.mdlp_discretizer from /repo", "joblib dispatch and retrieval", "numpy, scipy.stats"]
STUB = ["joblib workers", "clock", "numpy global generator state (scripted history)"]
ASSUMES = ["labels are non-negative integers, values are finite",
           "where the entropies of two cut points agree within 1e-9 either choice is accepted, except mirrored cuts of two labels"]


def plan(rng, tier):
    n, m = rng.randint(2, 30), rng.randint(1, 5)
    if rng.random() < 0.03:
        n, m = rng.choice([60, 100, 150]), rng.choice([1, 2, 12])
    ties = rng.choice(["none", "same-label", "any", "any"])
    k = rng.randint(2, 4)
    rows = []
    for _ in range(n):
        y = rng.randrange(k)
        x = []
        for j in range(m):
            base = (y + j) % k * 10 if rng.random() < 0.85 else rng.randrange(k) * 10
            if ties == "none":
                v = base + rng.random() * 9
            elif ties == "any":
                v = base + rng.randint(0, 4)
            else:
                v = base + rng.randint(0, 4) + 0.1 * y
            x.append(round(v, 4))
        rows.append([y, x])
    special = rng.random()
    if special < 0.03:  # a staircase of labels: cuts within cuts within cuts
        b, k = rng.randint(6, 14), 12
        steps = [rng.randint(max(2, b // 2), b) for _ in range(rng.randint(5, 11))]
        if rng.random() < 0.5:
            steps = [1] + [2 ** i + (rng.random() < 0.2) for i in range(rng.choice([5, 6, 7]))]
        rows = []
        for s, size in enumerate(steps):
            y = s if rng.random() < 0.8 else rng.randrange(k)
            for _ in range(size):
                rows.append([y, [round(s * 10 + rng.random() * 9, 4) for _ in range(m if m < 3 else 2)]])
        rng.shuffle(rows)
    elif special < 0.06:  # a palindrome of two labels: cuts that tie exactly
        half = [[rng.randrange(2), rng.randint(1, rng.choice([3, 20]))] for _ in range(rng.randint(1, 4))]
        seq = [y for y, c in half for _ in range(c)]
        seq += [rng.randrange(2)] * rng.randint(0, 25) + seq[::-1]
        rows = [[y, [round(i + 0.5 * rng.random(), 4)]] for i, y in enumerate(seq)]
        rng.shuffle(rows)
    elif special < 0.065:  # many classes
        k = rng.randint(30, 60)
        rows = [[y, [round(y * 10 + rng.random() * 9, 4)]] for y in range(k) for _ in range(rng.randint(8, 12))]
        rng.shuffle(rows)
    elif special < 0.068:  # many rows in few blocks of labels
        k, cut = 3, [rng.random() for _ in range(2)]
        rows = [[sum(v > c for c in cut), [v]] for v in (round(rng.random(), 15) for _ in range(rng.randint(1010, 1300)))]
    fits = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        fits.append({"fit_jobs": gen.job_plan(rng, 0.25, ntasks=m), "tr_jobs": gen.job_plan(rng, 0.2, ntasks=m),
                     "rng": rng.randrange(1000), "burn": rng.randrange(5), "same": rng.random() < 0.6})
    return {"rows": rows, "ylab": rng.choice([[0, 1, 2, 3]] * 4 + [[1, 2, 3, 4], [0, 5, 9, 30], [3, 2, 1, 0]]) + list(range(40, 100)),
            "ytype": rng.choice(["int64"] * 4 + ["int8", "uint8", "int32"]), "scale": rng.choice([1, 1, 1, -1, 1e-7, 1e9, -1e-3, 1e-13]),
            "mixed": rng.random() < 0.15, "fidx": rng.random() < 0.3, "order": rng.choice(["C", "C", "F"]), "frame": rng.random() < 0.5, "yseries": rng.random() < 0.4, "dtype": rng.choice(["f", "f", "f", "f", "i", "i", "float32", "int32", "int16", "uint8"]),
            "yperm": rng.random() < 0.5, "tself": rng.random() < 0.6,
            "seed": rng.randrange(100), "fits": fits, "perm": rng.randrange(1 << 20), "shuffle_cols": rng.random() < 0.4}


def _ent(y):
    c = np.bincount(y) / len(y)
    return entropy(c, base=2), int(np.sum(c != 0))


EPS = 1e-9


def shape(y, a, i, b):
    return sorted([sorted(np.unique(y[a:i], return_counts=True)[1].tolist()), sorted(np.unique(y[i:b], return_counts=True)[1].tolist())])


def acceptable(y, start, end, memo, limit):
    """Every set of cut indexes the published recursion may give (several only where floats tie)."""
    if (start, end) in memo:
        return memo[start, end]
    best, ks, two = np.inf, [], None
    n = end - start
    for i in range(start + 1, end):
        if y[i - 1] == y[i]:
            continue
        e = _ent(y[start:i])[0] * (i - start) / n + _ent(y[i:end])[0] * (end - i) / n
        if e < best - EPS:
            best, ks = e, [i]
        elif e <= best + EPS:
            # with two labels, cuts that mirror each other tie exactly however the entropy is summed: the first one wins
            if two is None:
                two = len(set(y[start:end].tolist())) == 2
            if not (two and any(shape(y, start, i, end) == shape(y, start, k, end) for k in ks)):
                ks.append(i)
            best = min(best, e)
    if not ks:
        memo[start, end] = {frozenset()}
        return memo[start, end]
    out = set()
    for k in ks:
        e1, k1 = _ent(y[start:k])
        e2, k2 = _ent(y[k:end])
        e0, k0 = _ent(y[start:end])
        gain = e0 - ((k - start) * e1 + (end - k) * e2) / n
        thr = (np.log2(n - 1) + np.log2(3.0 ** k0 - 2) - (k0 * e0 - k1 * e1 - k2 * e2)) / n
        if gain > thr - EPS:
            for a in acceptable(y, start, k, memo, limit):
                for b in acceptable(y, k, end, memo, limit):
                    out.add(a | b | {k})
        if gain <= thr + EPS:
            out.add(frozenset())
        if len(out) > limit:
            raise OverflowError
    memo[start, end] = out
    return out


def check_cuts(ctx, what, x, y, cuts, rtol):
    """Values shared by two labels may be sorted stably or by numpy's default sort."""
    ok = []
    for kind in ("stable", "quicksort"):
        o = np.argsort(x, kind=kind)
        xs, ys = x[o].astype(float), y[o]
        try:
            sets = acceptable(ys, 0, len(ys), {}, 60)
        except OverflowError:
            ctx.count("reach:ambiguous")
            return
        for s in sets:
            ref = sorted({float((xs[k - 1] + xs[k]) / 2) for k in s})
            ok.append(ref)
            if len(ref) == len(cuts) and np.allclose(ref, cuts, rtol=rtol, atol=0):
                return
    ctx.fail("wrong-cuts", "%s: cut points %r, the per-column algorithm gives %r" % (what, list(cuts), ok[:2]))


def _cuts(d):
    return {k: [float(v) for v in c] for k, c in d.cut_points_.items()}


def execute(p, ctx):
    if len(p["rows"]) < 2 or not p["fits"]:
        ctx.nontrivial = False
        return
    y = np.array([p["ylab"][r[0]] for r in p["rows"]], dtype=p["ytype"])
    X = np.array([r[1] for r in p["rows"]], dtype=float, order=p["order"]) * p["scale"]
    rtol = 1e-12
    if p["dtype"] == "i":
        X = np.round(X).astype(int)
    elif p["dtype"] == "float32":
        X, rtol = X.astype("float32"), 1e-6
    elif p["dtype"] in ("int32", "int16", "uint8"):
        X = np.round(X / p["scale"] * (3 if p["dtype"] == "uint8" else 400)) % (250 if p["dtype"] == "uint8" else 30000)
        X = X.astype(p["dtype"])
    cols = ["f%d" % j for j in range(X.shape[1])] if p["frame"] else list(range(X.shape[1]))
    XX = pd.DataFrame(X, columns=cols, index=range(70, 70 + len(X)) if p["fidx"] else None) if p["frame"] else X
    if p["frame"] and p["mixed"] and p["scale"] == 1 and p["dtype"] in "fi":  # one column of integers among floats
        XX[cols[0]] = np.round(XX[cols[0]]).astype(int)
        X[:, 0] = np.round(X[:, 0])
    yi = list(range(50, 50 + len(y)))
    if p["yperm"]:  # rows and labels belong together by position, whatever their index says
        yi = list(XX.index) if p["frame"] else yi
        random.Random(p["perm"]).shuffle(yi)
    yy = pd.Series(y, index=yi) if p["yseries"] else y
    clean = [all(len(set(y[X[:, j] == v])) == 1 for v in set(X[:, j].tolist())) for j in range(X.shape[1])]
    with Sim(clock=Clock(), np_seed=7):
        base = MDLPDiscretizer(random_state=p["seed"])
        ctx.must("exception", "single-worker fit", base.fit, XX, yy)
        other = MDLPDiscretizer(random_state=p["seed"] + 1)
        ctx.must("exception", "single-worker fit", other.fit, XX, yy)
    ref, ref2 = _cuts(base), _cuts(other)
    ctx.check(list(ref) == cols, "columns", lambda: "cut_points_ has keys %r for columns %r" % (list(ref), cols))
    for j, c in enumerate(cols):
        if clean[j]:
            ctx.count("reach:untied-column")
            ctx.check(ref[c] == ref2[c], "random-state", lambda: "column %r has no value shared by two labels but its "
                      "cut points depend on random_state: %r vs %r" % (c, ref[c], ref2[c]))
            check_cuts(ctx, "column %r" % c, X[:, j], y, ref[c], rtol)
        else:
            ctx.count("reach:tied-column")
            perm = np.random.RandomState(p["seed"]).permutation(len(X))
            check_cuts(ctx, "column %r" % c, X[perm, j], y[perm], ref[c], rtol)
    ch = Chooser(p["sched_seed"], p["choices"])
    ctx.choices_rec = ch.rec
    keys = []
    est = MDLPDiscretizer(random_state=p["seed"])
    r = np.random.RandomState(p["perm"])
    # new values, some of them equal to cut points
    T = np.array(X[r.randint(0, len(X), size=6)], dtype=float)
    for j, c in enumerate(cols):
        for i in range(min(3, len(ref[c]))):
            T[i, j] = ref[c][i]
    T[5, 0] = 1e6
    if p["tself"] and X.dtype.kind in "iu":  # new rows of the type of the old ones
        T = np.round(T)
        T[5, 0] = X[0, 0]
        T = T.astype(X.dtype)
    Tcols = list(cols)
    if p["frame"] and p["shuffle_cols"]:
        r.shuffle(Tcols)
        ctx.count("reach:reordered-columns")
    TT = pd.DataFrame(T, columns=cols)[Tcols] if p["frame"] else T
    for k, f in enumerate(p["fits"]):
        if not f["same"] and k:
            est = MDLPDiscretizer(random_state=p["seed"])
        for stage in ("fit", "transform"):
            j = f["fit_jobs"] if stage == "fit" else f["tr_jobs"]
            what = "%s %d (n_jobs=%s, %s)" % (stage, k, j["n_jobs"], j["mode"])
            est.set_params(n_jobs=j["n_jobs"])
            for faults in ([j["faults"], []] if j["faults"] else [[]]):
                js = JobSim(ch, mode=j["mode"], batch=j["batch"], faults=faults, mean_gap=j["gap"], workers=3)
                with Sim(clock=Clock(), jobs=js, np_seed=f["rng"]), user_backend(j["mode"]):
                    np.random.rand(f["burn"])
                    o = ctx.call(est.fit, XX, yy) if stage == "fit" else ctx.call(est.transform, TT)
                keys.append(js.key())
                for x in faults:
                    ctx.count("planned:" + x["kind"])
                for x in js.fired:
                    ctx.count("fault:" + x)
                if len(js.order) > 1 and js.order != sorted(js.order, key=repr):
                    ctx.count("reach:reordered")
                ctx.event(what, js.order, js.fired, o.ok)
                if js.fired:
                    ctx.check(not o.ok, "silent-failure", lambda: "%s returned although %s hit its tasks" % (
                        what, js.fired))
                    continue
                if not o.ok:
                    ctx.fail("exception", "%s raised %s: %s without a fault" % (what, type(o.exc).__name__,
                                                                               str(o.exc)[:300]))
                if stage == "fit":
                    got = _cuts(est)
                    ctx.check(got == ref and list(got) == cols, "worker-dependence",
                              lambda: "%s: cut points %r, single-worker fit gives %r" % (what, got, ref))
                else:
                    res = o.value
                    if p["frame"]:
                        ctx.check(list(res.columns) == Tcols, "columns", "%s: output columns differ" % what)
                        res = res.values
                    want = [[sum(1 for c in ref[col] if c < T[i, cols.index(col)]) for col in Tcols]
                            for i in range(len(T))]
                    ctx.check(np.asarray(res).tolist() == want, "wrong-bins", lambda: "%s: %r, expected %r" % (
                        what, np.asarray(res).tolist(), want))
    ctx.sched_key = str(keys)
    ctx.nontrivial = any(ref.values())

"""C06: concurrent readers of fitted SLIM models."""
import math

import numpy as np
import pandas as pd
from skmine.feature_extraction import SLIMVectorizer
from skmine.itemsets import SLIM, SlimClassifier

from .. import gen
from ..choose import Chooser
from ..sched import ThreadSched
from ..seams import Clock, Sim
from . import slim_common as sc

ID = "C06"
QUICK, THOROUGH = 3500, 80000
RULE = "a run counts if at least two reader calls were interleaved on one model; distinct by digest of the thread " \
       "switches and the answers"
SHRINK = ["threads", "D", "threads.0", "threads.1", "threads.2"]
SCHED_MEASURE = "distinct sequences of (preempted thread, source line, next thread)"
REAL = ["skmine.itemsets.slim, slim_classifier, feature_extraction.slim_vectorizer from /repo", "pandas, pyroaring"]
STUB = ["thread scheduler (one thread at a time, preempted at seeded source lines)", "clock"]
ASSUMES = ["new data has the same kind of container as the training data", "ties between classes are not judged"]


def plan(rng, tier):
    kind = rng.choice(["slim", "slim", "slim", "clf", "vec"])
    D = sc.rich(rng, max_t=14, max_i=8) if rng.random() < 0.7 else gen.transactions(rng, max_t=10, max_i=6, big=0.04)
    # many items that the training data lacks: code lengths of hundreds of bits
    wide = rng.randint(60, 130) if kind in ("slim", "clf") and rng.random() < 0.06 else 0
    tab = kind == "slim" and rng.random() < 0.25 and not wide
    m = max(i for t in D for i in t) + 1

    def new_rows():
        out = []
        for _ in range(rng.randint(1, 6) if wide or rng.random() < 0.99 else rng.choice([70, 140, 270])):
            t = list(rng.choice(D)) if rng.random() < 0.5 else []
            for i in range(wide or m + (0 if tab else 3)):
                if rng.random() < (0.7 if wide else 0.25):
                    t.append(i)
            out.append(sorted(set(t)))
        if not any(out):
            out[0] = [0]
        return out

    def op():
        r = rng.random()
        if kind == "clf":
            return {"m": "predict", "rows": new_rows()}
        if kind == "vec" and r < 0.6:
            return {"m": "vec", "rows": new_rows()}
        m_ = rng.choice(["cover", "len", "dec", "rec", "supp"] + (["transform"] * 2 if kind == "slim" else []))
        return {"m": m_, "rows": new_rows(), "singletons": rng.random() < 0.5, "tids": rng.random() < 0.5,
                "drop": rng.random() < 0.5, "lex": rng.random() < 0.8, "n": rng.choice([1, 2, 3, 3, 4, 5]),
                "r": rng.randrange(1 << 20)}
    nt = rng.choice([2, 2, 3, 1])
    return {"kind": kind, "D": D, "itype": rng.choice(gen.ITYPES), "tab": tab,
            "y": [rng.randrange(3) for _ in D], "ylab": rng.choice(["int", "str"]), "items": wide or rng.random() < 0.4,
            "pruning": rng.random() < 0.5, "k": rng.randint(1, 6), "stop": rng.random() < 0.3,
            "strategy": rng.choice(["codes", "one-hot"]), "series": rng.random() < 0.3,
            "gap": rng.choice([1, 2, 5, 12, 40, -1, -1, -1, -1]),
            "threads": [[op() for _ in range(rng.randint(1, 3))] for _ in range(nt)]}


def data(p, rows):
    r = gen.typed(rows, p["itype"])
    if p["tab"]:
        cols = [gen.item(i, p["itype"]) for i in range(max(i for t in p["D"] for i in t) + 1)]
        return pd.DataFrame([[int(c in set(x)) for c in cols] for x in r], columns=cols), [frozenset(x) for x in r]
    return (pd.Series(r) if p["series"] else r), [frozenset(x) for x in r]


def ref_cover(ct, rows, present):
    pats = [s for s, _ in ct if s <= present]
    cov, _ = greedy = sc.greedy(rows, pats)
    return pats, cov


def ref_len(ct, rows, present):
    tot = sum(len(t) + 1 for _, t in ct)
    code = {s: -math.log2((len(t) + 1) / tot) for s, t in ct}
    pats, cov = ref_cover(ct, rows, present)
    out = []
    for t in range(len(rows)):
        used = [s for s, c in zip(pats, cov) if t in c]
        v = sum(code[s] for s in used)
        out.append(v if used and v > 1e-9 else math.inf)
    return out


def present_of(p, rows, ct):
    if p["tab"]:
        return set().union(*[s for s, _ in ct])
    return set().union(*rows)


def feq(a, b):
    return len(a) == len(b) and all((math.isinf(x) and math.isinf(y)) or abs(x - y) <= 1e-3 + 1e-4 * abs(y)
                                    for x, y in zip(a, b))


def answer(ctx, p, model, cts, train, o):
    """(thunk to call, judge(result) -> error string or None)"""
    X, rows = data(p, o["rows"])
    m = o["m"]
    if m == "predict":
        def judge(res):
            lens = [ref_len(ct, rows, present_of(p, rows, ct)) for ct in cts]
            if len(res) != len(rows):
                return "%d predictions for %d rows" % (len(res), len(rows))
            for t in range(len(rows)):
                v = [l[t] for l in lens]
                best = min(v)
                if math.isinf(best):
                    continue
                k = list(model.classes_).index(res[t])
                if v[k] > best + 1e-3 + 1e-4 * best:
                    return "row %r predicted %r with code length %.4f, but class %r has %.4f" % (
                        sorted(rows[t]), res[t], v[k], model.classes_[v.index(best)], best)
        return (lambda: model.predict(X)), judge
    ct = cts[0]
    if m == "vec":
        stop = set(p["_stop"])

        def judge(res):
            kept = [frozenset(r - stop) for r in rows]
            pres = set().union(*kept)
            use = [(s, len(t)) for s, t in ct if s <= pres]
            best = sorted((u for _, u in use), reverse=True)[:p["k"]]
            at = {tuple(sorted(s)): i for i, (s, _) in enumerate(use)}
            cols = [tuple(c) for c in res.columns]
            order = [at.get(c) for c in cols]
            # the order of equally used patterns is unspecified
            if None in order or len(set(order)) != len(order) or [use[i][1] for i in order] != best:
                return "columns %r are not the %d most used of %r" % (cols, p["k"], [(sorted(s), u) for s, u in use])
            pats = [use[i][0] for i in order]
            cov, _ = sc.greedy(kept, pats)
            tot = sum(u for _, u in use)
            if len(res) != len(rows):
                return "%d rows for %d" % (len(res), len(rows))
            for j, (i, c) in enumerate(zip(order, cov)):
                val = (use[i][1] / tot if tot else math.nan) if p["strategy"] == "codes" else 1.0
                for t in range(len(rows)):
                    want = val if t in c else (0.0 if val == val else math.nan)
                    got = float(res.iat[t, j])
                    if want == want and abs(got - want) > 1e-5:
                        return "cell (%d, %r) is %r, expected %r" % (t, cols[j], got, want)
        return (lambda: model.transform(X)), judge
    if m == "cover":
        def judge(res):
            pats, cov = ref_cover(ct, rows, present_of(p, rows, ct))
            cols = [tuple(sorted(s)) for s in pats]
            if [tuple(c) for c in res.columns] != cols:
                return "columns %r, expected %r" % (list(res.columns), cols)
            want = [[t in c for c in cov] for t in range(len(rows))]
            if res.values.tolist() != want:
                return "cover matrix %r, expected %r" % (res.values.tolist(), want)
        return (lambda: model.cover(X)), judge
    if m in ("len", "dec"):
        def judge(res):
            want = ref_len(ct, rows, present_of(p, rows, ct))
            if m == "dec":
                # small values are compared on the scale of code lengths, as far as single precision goes
                got = [-5 * math.log(float(v)) if v > 0 else math.inf for v in np.asarray(res)]
                if len(got) != len(want) or not all(g == w or abs(g - w) <= 1e-3 + 1e-4 * w or (w > 420 and g > 420)
                                                    for g, w in zip(got, want)):
                    return "got %r, expected exp(-0.2 * %r)" % (list(np.asarray(res)), want)
                return
            got = [float(v) for v in np.asarray(res)]
            if not feq(got, want):
                return "got %r, expected %r" % (got, want)
        return ((lambda: model.get_code_length(X)) if m == "len" else (lambda: model.decision_function(X))), judge
    if m == "rec":
        def judge(res):
            if [list(r) for r in res] != [sorted(r) for r in train]:
                return "reconstruct() gives %r" % [list(r) for r in res][:5]
        return model.reconstruct, judge
    if m == "supp":
        import random
        its = sorted(set().union(*[s for s, _ in ct]))
        rng = random.Random(o["r"])
        row = sorted(rng.choice(train)) if train and rng.random() < 0.6 else []
        if row:  # a long itemset that does occur, perhaps with an item that does not fit
            its = rng.sample(row, rng.randint(1, len(row))) + rng.sample([i for i in its if i not in row][:1], 0 if rng.random() < 0.7 else 1 if set(its) - set(row) else 0)
        else:
            its = rng.sample(its, min(len(its), o["n"]))

        def judge(res):
            want = {t for t, r in enumerate(train) if set(its) <= r}
            if set(res) != want:
                return "get_support(%r) = %r, expected %r" % (its, sorted(res), sorted(want))
        return (lambda: model.get_support(*its)), judge

    def judge(res):
        want = [(tuple(sorted(s)), tuple(sorted(t)) if o["tids"] else len(t)) for s, t in ct
                if (len(t) > 0 or not o["drop"]) and (len(s) > 1 or o["singletons"])]
        col = "tids" if o["tids"] else "usage"
        if list(res.columns) != ["itemset", col]:
            return "columns %r for return_tids=%r" % (list(res.columns), o["tids"])
        got = [(tuple(i) if o["lex"] else tuple(sorted(i)), tuple(u) if o["tids"] else int(u))
               for i, u in zip(res["itemset"], res[col])]
        if got != want:
            return "got %r, expected %r" % (got[:6], want[:6])
    return (lambda: model.transform(X, singletons=o["singletons"], return_tids=o["tids"], lexicographic_order=o["lex"],
                                    drop_null_usage=o["drop"])), judge


def execute(p, ctx):
    D = [t for t in p["D"]]
    if not D or not all(D) or not p["threads"] or not all(p["threads"]):
        ctx.nontrivial = False
        return
    X, train = data(p, D)
    items = [gen.item(i, p["itype"]) for i in range(max(9, int(p["items"])))] if p["items"] else None
    p = dict(p, _stop=[])
    with Sim(clock=Clock()):
        if p["kind"] == "clf":
            y = [("c%d" % v if p["ylab"] == "str" else v) for v in (p["y"] + [0] * len(D))[:len(D)]]
            model = SlimClassifier(items=items, pruning=p["pruning"])
            ctx.must("exception", "fit", model.fit, X, y)
            parts = model.models_
            cts = [sc.table(s) for s in parts]
        elif p["kind"] == "vec":
            stop = [gen.item(D[0][0], p["itype"])] if p["stop"] else None
            if stop and all(set(r) <= set(stop) for r in train):
                stop = None
            p["_stop"] = stop or []
            train = [frozenset(r - set(p["_stop"])) for r in train]
            model = SLIMVectorizer(strategy=p["strategy"], k=p["k"], pruning=p["pruning"], stop_items=stop)
            if stop and not train[-1]:
                pass
            ctx.must("exception", "fit", model.fit, X)
            cts = [sc.table(model)]
        else:
            model = SLIM(pruning=p["pruning"], items=items if not p["tab"] else None)
            ctx.must("exception", "fit", model.fit, X)
            cts = [sc.table(model)]
    thunks = [[answer(ctx, p, model, cts, train, o) for o in ops] for ops in p["threads"]]
    ch = Chooser(p["sched_seed"], p["choices"])
    ctx.choices_rec = ch.rec
    sch = ThreadSched(ch, mean_gap=p["gap"])

    def body(i):
        out = []
        for call, judge in thunks[i]:
            try:
                out.append(("ok", call()))
            except Exception as e:
                out.append(("exc", e))
        return out
    with Sim(clock=Clock(), sched=sch):
        outs = sch.run([lambda i=i: body(i) for i in range(len(thunks))])
    ctx.sched_key = repr(sch.switches)[:6000]
    ctx.sim_time += sch.steps * 1e-6
    ctx.count("fault:thread-switch", len(sch.switches))
    ctx.event([s[:3] for s in sch.switches])
    for i, (st, res) in enumerate(outs):
        if st != "ok":
            raise res
    # judged after the run, and once more on sequential repeats: earlier reads must not change later answers
    for rnd in ("concurrent", "later"):
        for i, ops in enumerate(thunks):
            for k, (call, judge) in enumerate(ops):
                o = p["threads"][i][k]
                if rnd == "concurrent":
                    st, v = outs[i][1][k]
                else:
                    with Sim(clock=Clock()):
                        r = ctx.call(call)
                    st, v = ("ok", r.value) if r.ok else ("exc", r.exc)
                what = "%s %s.%s in thread %d of %d" % (rnd, p["kind"], o["m"], i, len(thunks))
                if st == "exc":
                    ctx.fail("exception", "%s raised %s: %s" % (what, type(v).__name__, str(v)[:300]))
                err = judge(v)
                ctx.check(err is None, "wrong-answer", lambda: "%s: %s" % (what, err))
                ctx.count("reach:" + o["m"])
    cts2 = [sc.table(s) for s in (model.models_ if p["kind"] == "clf" else [model])]
    ctx.check(cts2 == cts, "model-changed", "reader calls changed the code table")
    ctx.nontrivial = len(sch.switches) > 1

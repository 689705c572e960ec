"""C17: seeded sample generation under RNG histories, threads and interrupts."""
import random

import numpy as np
from skmine.datasets import make_classification, make_transactions

from ..choose import Chooser
from ..sched import ThreadSched, interrupt
from ..seams import Clock, Sim

ID = "C17"
QUICK, THOROUGH = 6000, 200000
RULE = "a run counts if a generator call was interleaved with other users of randomness or repeated; distinct by digest"
SHRINK = ["threads", "threads.0", "threads.1", "threads.2", "gens"]
SCHED_MEASURE = "distinct sequences of (preempted thread, source line, next thread)"
REAL = ["skmine.datasets._samples_generator from /repo", "numpy and pandas generators"]
STUB = ["thread scheduler", "clock"]
ASSUMES = ["random_state is an integer"]


def plan(rng, tier):
    gens = []
    for _ in range(rng.randint(1, 3)):
        seed = rng.choice([0, 0, 1, 7, 42, 2 ** 32 - 1, rng.randrange(1 << 31)])
        if rng.random() < 0.5:
            gens.append({"fn": "t", "kw": {"n_transactions": rng.choice([1, 2, 5, 13, 40, 300]), "n_items": rng.choice([1, 2, 5, 20, 50, 50, 600]),
                                           "density": rng.choice([0.05, 0.3, 0.5, 0.8, 0.95]), "random_state": seed,
                                           "item_start": rng.choice([0, 0, 1, 100])}})
        else:
            nc = rng.choice([1, 2, 2, 3, 5])
            kw = {"n_samples": rng.choice([5, 10, 11, 30, 30, 250]), "n_items_per_class": rng.choice([2, 5, 20, 20, 300]), "n_classes": nc,
                  "class_sep": rng.choice([0.0, 0.2, 0.5, 1.0]), "shuffle": rng.random() < 0.75, "random_state": seed}
            if rng.random() < 0.3:
                kw["densities"] = [rng.choice([0.2, 0.5, 0.9]) for _ in range(nc)]
            if nc == 2 and rng.random() < 0.4:
                kw["weights"] = rng.choice([[0.2, 0.8], [0.5, 0.5], [0.75, 0.25]])
            gens.append({"fn": "c", "kw": kw})

    def op():
        r = rng.random()
        if r < 0.55:
            o = {"op": "gen", "g": rng.randrange(len(gens))}
            if rng.random() < 0.15:
                o["interrupt"] = rng.randint(1, 60)
            return o
        if r < 0.7:
            return {"op": "seed", "v": rng.randrange(1000)}
        if r < 0.85:
            return {"op": "rand", "n": rng.randint(1, 4)}
        return {"op": rng.choice(["perm", "pyrand", "normal"])}
    nt = rng.choice([1, 2, 2, 3])
    return {"gens": gens, "threads": [[op() for _ in range(rng.randint(1, 6))] for _ in range(nt)],
            "gap": rng.choice([1, 2, 4, 10, 30, -1]), "rng": rng.randrange(1000)}


def show(g, v):
    if g["fn"] == "t":
        return [[int(i) for i in t] for t in v], [int(i) for i in v.index]
    D, y = v
    return [[int(i) for i in t] for t in D], [int(i) for i in D.index], [int(i) for i in y], [int(i) for i in y.index]


def call(g):
    return (make_transactions if g["fn"] == "t" else make_classification)(**g["kw"])


def global_op(o, R, P):
    """The same operation on the real global generators or on their shadows."""
    if o["op"] == "seed":
        R.seed(o["v"])
        return None
    if o["op"] == "rand":
        return R.rand(o["n"]).tolist()
    if o["op"] == "perm":
        return R.permutation(7).tolist()
    if o["op"] == "normal":
        return float(R.normal())  # leaves a cached value behind in the generator
    return P.random()


def validate(ctx, g, v):
    kw = g["kw"]
    if g["fn"] == "t":
        D, idx = v
        ctx.check(len(D) == kw["n_transactions"], "count", lambda: "%d transactions, %d requested" % (
            len(D), kw["n_transactions"]))
        lo, hi = kw["item_start"], kw["item_start"] + kw["n_items"]
        groups = [(t, lo, hi) for t in D]
    else:
        D, idx, y, yidx = v
        n, nc, sep = kw["n_items_per_class"], kw["n_classes"], kw["class_sep"]
        w = kw.get("weights") or [1 / nc] * nc
        ctx.check(len(D) == len(y), "count", "%d samples but %d labels" % (len(D), len(y)))
        ctx.check(idx == yidx, "alignment", "samples and labels have different indexes")
        want = {c: int(w[c] * kw["n_samples"]) for c in range(nc)}
        got = {c: y.count(c) for c in sorted(set(y) | set(range(nc)))}
        ctx.check(set(got) == set(range(nc)) and all(abs(got[c] - want[c]) <= 1 for c in got), "count",
                  lambda: "class counts %r, requested %r" % (got, want))
        groups = []
        for t, c in zip(D, y):
            lo = 0 if sep < 1 else c * n
            groups.append((t, lo, n + int(np.ceil(c * n * sep))))
    for t, lo, hi in groups:
        ctx.check(len(set(t)) == len(t) and all(lo <= i < hi for i in t), "items",
                  lambda: "transaction %r repeats items or leaves the range [%d, %d)" % (t, lo, hi))


def execute(p, ctx):
    if not p["gens"] or not p["threads"] or not all(p["threads"]):
        ctx.nontrivial = False
        return
    refs = []
    with Sim(clock=Clock(), np_seed=p["rng"] + 1):
        for g in p["gens"]:
            v = show(g, ctx.must("exception", "%s(%s)" % (g["fn"], g["kw"]), call, g))
            validate(ctx, g, v)
            refs.append(v)
    ch = Chooser(p["sched_seed"], p["choices"])
    ctx.choices_rec = ch.rec
    sch = ThreadSched(ch, mean_gap=p["gap"])
    done = []

    def body(i):
        out = []
        for k, o in enumerate(p["threads"][i]):
            if o["op"] == "gen":
                g = p["gens"][o["g"] % len(p["gens"])]
                if o.get("interrupt"):
                    if len(p["threads"]) == 1:
                        fired, _ = interrupt(lambda: call(g), o["interrupt"], KeyboardInterrupt("sim"))
                        if fired:
                            ctx.count("fault:interrupt")
                    continue
                r = ctx.call(call, g)
                out.append((k, o["g"] % len(p["gens"]), r))
            else:
                done.append((i, k, o, global_op(o, np.random, random)))
        return out
    with Sim(clock=Clock(), sched=sch if len(p["threads"]) > 1 else None, np_seed=p["rng"]):
        if len(p["threads"]) > 1:
            outs = sch.run([lambda i=i: body(i) for i in range(len(p["threads"]))])
        else:
            outs = [("ok", body(0))]
        end = (np.random.rand(3).tolist(), random.random())
    ctx.count("fault:thread-switch", len(sch.switches))
    ctx.sched_key = repr(sch.switches)[:4000]
    ctx.event([s[:3] for s in sch.switches], refs[0][0][:3])
    n = 0
    for i, (st, res) in enumerate(outs):
        if st != "ok":
            raise res
        for k, gi, r in res:
            g = p["gens"][gi]
            what = "%s(%r), op %d of thread %d" % ({"t": "make_transactions", "c": "make_classification"}[g["fn"]],
                                                  g["kw"], k, i)
            if not r.ok:
                ctx.fail("exception", "%s raised %r" % (what, r.exc))
            v = show(g, r.value)
            ctx.check(v == refs[gi], "not-reproducible", lambda: "%s gives %r..., an earlier call gave %r..." % (
                what, v[0][:3], refs[gi][0][:3]))
            n += 1
    # replay of the other users of the global generators, in the order they really ran, without any generator call
    R, P = np.random.RandomState(p["rng"]), random.Random(p["rng"])
    for i, k, o, v in done:
        want = global_op(o, R, P)
        ctx.check(v == want, "global-generator", lambda: "%s by thread %d gave %r instead of %r: a seeded call used the "
                  "global generator" % (o["op"], i, v, want))
    want = (R.rand(3).tolist(), P.random())
    ctx.check(end == want, "global-generator", "after the run the global generators are not where their other users "
              "left them")
    ctx.count("reach:generated", n)
    ctx.nontrivial = n > 0 and (len(done) > 0 or n > 1 or len(sch.switches) > 0)

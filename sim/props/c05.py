"""C05: interactive SLIM histories."""
from skmine.itemsets import SLIM

from .. import gen
from ..seams import Clock, Sim
from . import slim_common as sc

ID = "C05"
QUICK, THOROUGH = 7000, 120000
RULE = "a run counts if its history accepted at least one candidate; distinct by digest of the whole history"
SHRINK = ["ops", "D"]
SCHED_MEASURE = "distinct operation histories with their resulting code tables"
REAL = ["skmine.itemsets.slim from /repo"]
STUB = ["clock", "the interactive user (seeded operation history)"]
ASSUMES = ["candidates are non-empty sets of items of the training data"]


def plan(rng, tier):
    D = sc.rich(rng, max_t=14, max_i=8) if rng.random() < 0.7 else gen.transactions(rng, max_t=10, max_i=6, big=0.06)
    ops = []
    for _ in range(rng.randint(1, 12)):
        k = rng.choice(["gen", "gen", "eval", "eval", "accept", "accept", "accept-usages", "accept-stale", "refit"]
                       if rng.random() < 0.15 else ["gen", "eval", "eval", "accept", "accept-usages", "accept-stale"])
        ops.append({"op": k, "pick": rng.choice(["top", "gen", "random", "random", "existing", "row", "single"]),
                    "r": rng.randrange(1 << 30), "stack": rng.random() < 0.3})
    return {"D": D, "itype": rng.choice(gen.ITYPES), "container": rng.choice(gen.CONTAINERS + ["tabular"]),
            "pruning": rng.random() < 0.5, "start": rng.choice(["prefit", "prefit", "fit", "fit0"]), "ops": ops}


def _pick(slim, rows, op, cands):
    import random
    r = random.Random(op["r"])
    items = sorted(set().union(*rows))
    how = op["pick"]
    if how in ("top", "gen") and cands:
        return cands[0] if how == "top" else r.choice(cands)
    if how == "existing":
        big = [s for s in slim.codetable_ if len(s) > 1]
        c = r.choice(sorted(big or list(slim.codetable_), key=lambda s: tuple(sorted(s))))
    elif how == "row":
        c = r.choice([x for x in rows if x])
    elif how == "single":
        c = [r.choice(items)]
    else:
        c = r.sample(items, min(len(items), r.randint(1, 4)))
    c = sorted(c)
    r.shuffle(c)  # an equal set built in another order
    return frozenset(c)


def _check_cands(ctx, slim, rows, cands, stack_before, what):
    ct = sc.table(slim)
    prev = None
    seen = set()
    for c in cands:
        ctx.check(len(c) == 2, "candidate", lambda: "%s: candidate %r is not an (itemset, gain) pair" % (what, c))
        s, g = frozenset(c[0]), float(c[1])
        ctx.check(s not in seen, "candidate-twice", lambda: "%s: candidate %r is proposed twice" % (what, sorted(s)))
        seen.add(s)
        ctx.check(prev is None or g <= prev + 1e-9, "candidate-order", lambda: "%s: gains are not decreasing" % what)
        prev = g
        ctx.check(stack_before is None or s not in stack_before, "candidate-stack",
                  lambda: "%s: candidate %r was in the stack of already seen itemsets" % (what, sorted(s)))
        ok = any(x | y == s and tx & ty for i, (x, tx) in enumerate(ct) if x <= s for y, ty in ct[i + 1:] if y <= s)
        ctx.check(ok, "candidate-union", lambda: "%s: candidate %r is no union of two patterns used together in a "
                  "transaction" % (what, sorted(s)))


def execute(p, ctx):
    D = [list(t) for t in p["D"]]
    if not D or not all(D):
        ctx.nontrivial = False
        return
    X, rows = sc.build(D, p["itype"], p["container"])
    slim = SLIM(pruning=p["pruning"], max_time=0 if p["start"] == "fit0" else -1)
    accepted = 0
    with Sim(clock=Clock()):
        if p["start"] == "prefit":
            ctx.must("exception", "prefit", slim.prefit, X)
        else:
            ctx.must("exception", "fit", slim.fit, X)
        sc.check_model(ctx, slim, rows, "after " + p["start"])
        cands, stale = [], []
        for n, op in enumerate(p["ops"]):
            k = op["op"]
            what = "step %d (%s)" % (n, k)
            before = sc.state(slim)
            if k == "gen":
                stack = set(slim.codetable_.keys()) | set(cands) if op["stack"] else None
                sb = None if stack is None else set(stack)
                res = ctx.must("exception", what, *((slim.generate_candidates, stack) if stack is not None
                                                    else (slim.generate_candidates,)))
                res = list(res)
                ctx.check(sc.state(slim) == before, "mutation", lambda: "%s: generating candidates changed the model"
                          % what)
                _check_cands(ctx, slim, rows, res, sb, what)
                if res:
                    cands = [frozenset(c) for c, _ in res]
                    ctx.count("reach:candidates", len(res))
            elif k == "eval":
                c = _pick(slim, rows, op, cands)
                d, m, us = ctx.must("exception", "%s of %r" % (what, sorted(c)), slim.evaluate, c)
                ctx.check(sc.state(slim) == before, "mutation", lambda: "%s: evaluating %r changed the model: %r -> %r"
                          % (what, sorted(c), before, sc.state(slim)))
                stale.append((c, d, m, us))
                ctx.event(n, sorted(map(str, c)), round(float(d), 3), round(float(m), 3))
            elif k == "refit":
                ctx.must("exception", what, slim.prefit, X)
                stale, cands = [], []
                sc.check_model(ctx, slim, rows, what)
            else:
                if k == "accept-stale" and stale:
                    c, d, m, us = stale[op["r"] % len(stale)]
                    us = {s: t.copy() for s, t in us.items()}
                    ctx.count("reach:stale-accept")
                    ctx.must("exception", what, slim.update, usages=us, data_size=d, model_size=m)
                else:
                    c = _pick(slim, rows, op, cands)
                    d, m, us = ctx.must("exception", "%s: evaluate %r" % (what, sorted(c)), slim.evaluate, c)
                    us = {s: t.copy() for s, t in us.items()}
                    if k == "accept":
                        ctx.must("exception", "%s of %r" % (what, sorted(c)), slim.update, candidate=c)
                    else:
                        ctx.must("exception", "%s of %r" % (what, sorted(c)), slim.update, usages=us, data_size=d,
                                 model_size=m)
                accepted += 1
                what = "%s of %r" % (what, sorted(c))
                if c in dict(sc.table(slim)) and len(c) > 1:
                    ctx.count("reach:accepted-in-table")
                sc.check_model(ctx, slim, rows, what, bound=False)
                ctx.check(sc.close(slim.data_size_, d) and sc.close(slim.model_size_, m), "announced-sizes",
                          lambda: "%s installed sizes (%.4f, %.4f), evaluate announced (%.4f, %.4f)" % (
                              what, slim.data_size_, slim.model_size_, d, m))
                want = {s for s, t in us.items()} | {s for s in dict(sc.table(slim)) if len(s) == 1}
                ctx.check(set(dict(sc.table(slim))) == want, "announced-table",
                          lambda: "%s: the code table is not the one evaluate announced" % what)
                if p["start"] != "prefit" and op["r"] % 3 == 0:
                    sc.check_answers(ctx, slim, X, rows, what)
                ctx.event(n, k, sc.state(slim)[1:])
    ctx.sched_key = ctx.digest()
    ctx.nontrivial = accepted > 0

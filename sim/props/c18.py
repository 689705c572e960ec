"""C18: threads with estimators of their own do not affect each other."""
import contextlib
import io
import warnings

from .. import zoo, zygote
from ..choose import Chooser
from ..sched import StepBudget, ThreadSched, bounded
from ..seams import Clock, Sim
from .c07 import hash_of, usable

ID = "C18"
QUICK, THOROUGH = 1600, 60000
RULE = "a run counts if threads were switched inside library code; distinct by the switches and the answers"
SHRINK = ["threads", "threads.0", "threads.1", "threads.2"]
SCHED_MEASURE = "distinct sequences of (preempted thread, source line, next thread)"
REAL = ["skmine (all estimators) from /repo", "joblib's sequential path", "pandas, numpy, pyroaring, networkx"]
STUB = ["thread scheduler (one thread at a time, preempted at seeded source lines)", "clock",
        "interrupts of single threads"]
ASSUMES = ["preemption happens between source lines of skmine", "judged calls have no time budget and n_jobs=1"]


def plan(rng, tier):
    pool = []
    nt = rng.choice([2, 2, 2, 3, 4])
    # threads with the same class meet in the same code, with the same data on the same objects
    base = rng.choice(zoo.KINDS + ["periodic", "periodic", "graph", "slim"])
    threads = []
    for t in range(nt):
        calls = []
        for _ in range(rng.choice([1, 1, 2])):
            r = rng.random()
            if pool and r < 0.4:
                i = rng.randrange(len(pool))
            else:
                kind = base if rng.random() < 0.65 else rng.choice(zoo.KINDS)
                if rng.random() < 0.08:
                    pool.append({"kind": kind, "bad": zoo.bad_data(kind, rng)})
                else:
                    d = zoo.data(kind, rng, size=rng.choice([0.7, 0.7, 1.0]))
                    if kind == "graph":
                        d["timeout"] = None
                    pool.append({"kind": kind, "d": d})
                i = len(pool) - 1
            calls.append({"i": i, "params": zoo.params(pool[i]["kind"], rng), "again": rng.random() < 0.15})
        th = {"calls": calls}
        if rng.random() < 0.12:
            th["intr"] = int(rng.choice([rng.randint(1, 60), rng.randint(1, 600)]))
        elif rng.random() < 0.08:
            th["hurry"] = True  # its own (unjudged) fits get a time budget
        threads.append(th)
    return {"pool": pool, "threads": threads, "gap": rng.choice([1, 2, 5, 15, 50, -1, -1, -1, -1])}


def args_of(ent):
    return zoo.bad_inputs(ent["kind"], ent["bad"]) if "bad" in ent else zoo.inputs(ent["kind"], ent["d"])


def one(c, ent, args, hurry=False):
    """What one thread observes of one estimator's life."""
    kind = ent["kind"]
    est = zoo.make(kind, c["params"])
    out = []
    for _ in range(2 if c["again"] else 1):
        try:
            if hurry and kind == "graph":
                est.fit(args[0], timeout=0.003)
            elif hurry and kind in ("slim", "slimvec"):
                est.max_time = 0.003
                est.fit(args[0])
            else:
                zoo.fit(est, kind, args)
        except Exception as e:
            out.append(("fit raised", type(e).__name__))
            if "bad" in ent:
                continue
        if "bad" not in ent:
            out.append(zoo.answers(est, kind, args))
    return tuple(out)


def alone(p, t):
    warnings.simplefilter("ignore")
    out = []
    with Sim(clock=Clock()), contextlib.redirect_stdout(io.StringIO()):
        for c in p["threads"][t]["calls"]:
            ent = p["pool"][c["i"]]
            n, (st, v) = bounded(lambda: one(c, ent, args_of(ent)), 3_000_000)
            if st == "exc":
                raise v
            out.append(v)
    return tuple(out)


def execute(p, ctx):
    warnings.simplefilter("ignore")
    th = p["threads"]
    if not th or any(not x["calls"] for x in th) or any("d" in e and not usable(e["d"]) for e in p["pool"]):
        ctx.nontrivial = False
        return
    want = {}
    for t in range(len(th)):
        if not th[t].get("intr") and not th[t].get("hurry"):
            try:
                want[t] = zygote.pristine(alone, p, t)
            except StepBudget:
                ctx.nontrivial = False  # endless on its own: judged elsewhere
                return
    shared = [args_of(e) for e in p["pool"]]
    ch = Chooser(p["sched_seed"], p["choices"])
    ctx.choices_rec = ch.rec
    sch = ThreadSched(ch, mean_gap=p["gap"], budget=8_000_000)
    for t, x in enumerate(th):
        if x.get("intr"):
            ctx.count("planned:interrupt")
            sch.inj[t] = [x["intr"], KeyboardInterrupt("simulated"), lambda: ctx.count("fault:interrupt")]

    def body(t):
        return tuple(one(c, p["pool"][c["i"]], shared[c["i"]], th[t].get("hurry")) for c in th[t]["calls"])
    with Sim(clock=Clock(), sched=sch), contextlib.redirect_stdout(io.StringIO()):
        outs = sch.run([lambda t=t: body(t) for t in range(len(th))])
    ctx.count("fault:thread-switch", len(sch.switches))
    ctx.sim_time += sch.steps * 1e-6
    ctx.sched_key = repr([s[1:] for s in sch.switches])[:6000]
    ctx.event([s[:3] for s in sch.switches], hash_of(want))
    ctx.nontrivial = len(sch.switches) > len(th)
    for t in sorted(want):
        st, v = outs[t]
        kinds = [p["pool"][c["i"]]["kind"] for c in th[t]["calls"]]
        for k in kinds:
            ctx.count("reach:" + k)
        if st == "exc":
            if type(v).__name__ == "HarnessError":
                raise v
            ctx.fail("thread-fails", "thread %d (%s) raised %s: %s next to others, but not alone" % (
                t, kinds, type(v).__name__, str(v)[:200]))
        ctx.check(v == want[t], "interference", lambda: "thread %d (%s) gets other answers next to the other threads %r than "
                  "alone: %s" % (t, kinds, [[p["pool"][c["i"]]["kind"] for c in x["calls"]] for x in th],
                                 zoo.first_diff(want[t], v)))

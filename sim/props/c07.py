"""C07: whatever happened to an estimator before, a fit that completes is like a fit of a new object."""
import contextlib
import copy
import io
import warnings

import joblib
import numpy as np

from .. import gen, zoo, zygote
from ..choose import Chooser
from ..sched import StepBudget, bounded, interrupt
from ..seams import Clock, Sim
from ..simjob import JobSim, user_backend

ID = "C07"
QUICK, THOROUGH = 2500, 60000
RULE = "a run counts if the history before the judged fit is not empty; distinct by kind, history outcome and answers"
SHRINK = ["history", "final.rows", "final.log.occ", "final.graph.edges", "final.graph.nodes"]
SCHED_MEASURE = "distinct (estimator, history of calls, where they were interrupted, worker schedule) sequences"
REAL = ["skmine (all estimators) from /repo", "joblib dispatch and retrieval", "pandas, numpy, pyroaring, networkx"]
STUB = ["clock", "joblib workers", "interrupts (an exception raised at a seeded source line of skmine)",
        "numpy global generator state (scripted history)"]
ASSUMES = ["the compared fits see the same clock readings", "interrupts arrive between source lines of skmine"]


def plan(rng, tier):
    kind = rng.choice(zoo.KINDS + ["slim", "periodic"])
    hist = []

    def dat():
        return zoo.data(kind, rng, size=0.9)
    pool = [dat() for _ in range(2)]
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        d = rng.choice(pool) if rng.random() < 0.7 else dat()
        if r < 0.25:
            op = {"op": "fit", "d": d}
        elif r < 0.55:
            op = {"op": "fit", "d": d, "intr": _at(rng), "exc": rng.choice(["KeyboardInterrupt", "MemoryError", "RuntimeError"])}
        elif r < 0.7:
            op = {"op": "bad", "how": zoo.bad_data(kind, rng)}
        elif r < 0.77:
            op = {"op": "ask", "d": d}
        elif r < 0.85:
            op = {"op": "query", "d": d, "r": rng.randrange(100), "intr": _at(rng) if rng.random() < 0.4 else None,
                  "exc": "KeyboardInterrupt"}
        elif r < 0.93:
            op = {"op": "params", "p": zoo.params(kind, rng)}
        else:
            op = {"op": "edit", "r": rng.randrange(1 << 20)}
        hist.append(op)
    r = rng.random()
    final = rng.choice(pool) if r < 0.4 else dat() if r < 0.75 else near(rng, rng.choice(pool))
    if kind == "graph":
        final = dict(final, timeout=None)
    return {"kind": kind, "params": zoo.params(kind, rng), "history": hist, "final": final,
            "jobs": gen.job_plan(rng, 0.0) if kind in ("lcm", "lcmmax", "mbdll", "mdlp") and rng.random() < 0.3 else None,
            "via": rng.choice(["fit", "fit", "fit_transform"]), "rev": rng.random() < 0.3}


def near(rng, d):
    """Almost the same data: a few rows or occurrences more or less, as many items, columns and events as before."""
    d = copy.deepcopy(d)
    seq = d["log"]["occ"] if "log" in d else d["graph"]["edges"] if "graph" in d else d["rows"]
    for _ in range(rng.randint(1, 4)):
        if not seq:
            break
        i = rng.randrange(len(seq))
        if "rows" in d and rng.random() < 0.6:
            seq.append(seq[i])
        elif len(seq) > 2:
            seq.pop(i)
    return d


def _at(rng):
    return int(rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 400), rng.randint(1, 2500)]))


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError}


def apply_params(est, kind, p):
    """What a user does to change parameters; returns False if the class cannot."""
    new = zoo.make(kind, p)
    try:
        est.set_params(**new.get_params())
    except (AttributeError, RuntimeError, TypeError, ValueError):
        return False
    return True


def usable(d):
    if "log" in d:
        return len(d["log"]["occ"]) >= 2
    if "graph" in d:
        ids = {i for i, _ in d["graph"]["nodes"]}
        return bool(ids) and (any(x[1] for x in d["graph"]["nodes"]) or any(a in ids and b in ids for a, b, _ in d["graph"]["edges"]))
    return len(d["rows"]) >= 2 and all(r[1] for r in d["rows"]) and len({r[0] for r in d["rows"]}) >= 2


def execute(p, ctx):
    warnings.simplefilter("ignore")
    kind = p["kind"]
    if not usable(p["final"]):
        ctx.nontrivial = False
        return
    trace = []
    ch = Chooser(p["sched_seed"], p.get("choices"))
    ctx.choices_rec = ch.rec
    jp = p["jobs"]
    par = dict(p["params"])
    if jp:
        par["n_jobs"] = jp["n_jobs"]
    cur = par

    def sim():
        return Sim(clock=Clock(), jobs=JobSim(ch, jp["mode"], jp["batch"], mean_gap=jp["gap"]) if jp else None)
    with contextlib.redirect_stdout(io.StringIO()):
        with sim():
            est = zoo.make(kind, par)
        for op in p["history"]:
            what = op["op"]
            if what == "params":
                new = dict(op["p"])
                if jp:
                    new["n_jobs"] = jp["n_jobs"]
                if apply_params(est, kind, new):
                    cur = new
                trace.append("params")
                continue
            if what in ("fit", "query", "ask") and not usable(op["d"]):
                continue
            if what == "fit":
                args = zoo.inputs(kind, op["d"])
                if kind == "graph" and op["d"].get("timeout"):
                    args = (args[0], 0.004)
                fn = lambda: zoo.fit(est, kind, args)
            elif what == "bad":
                args = zoo.bad_inputs(kind, op["how"])
                fn = lambda: zoo.fit(est, kind, args)
            elif what == "ask":
                fn = lambda: zoo.answers(est, kind, zoo.inputs(kind, op["d"]))
            elif what == "query":
                qs = zoo.probes(kind, zoo.inputs(kind, op["d"]))
                q = qs[op["r"] % len(qs)]
                fn = lambda: q[1](est)
            else:
                fn = lambda: edit(est, kind, op["r"])
            with sim(), user_backend(jp["mode"] if jp else "procs"):
                if op.get("intr"):
                    ctx.count("planned:interrupt")
                    where, (st, v) = interrupt(fn, op["intr"], EXC[op["exc"]]("simulated"))
                    if where:
                        ctx.count("fault:interrupt")
                        st = "interrupted"
                else:
                    where = None
                    _, (st, v) = bounded(fn, 3_000_000)
                    if what == "bad" and st == "exc":
                        ctx.count("fault:rejected-input")
            if st == "exc" and isinstance(v, StepBudget):
                if what == "bad":  # no promise for inputs outside the domain
                    ctx.nontrivial = False
                    return
                raise v
            trace.append((what, op.get("how"), st, where, type(v).__name__ if st == "exc" else None))
        args = zoo.inputs(kind, p["final"])
        args2 = zoo.inputs(kind, p["final"])

        with sim(), user_backend(jp["mode"] if jp else "procs"):
            st1, got, v1 = go(p, est, args)
        # the same fit on a new object, in this process and in one where nothing has ever run
        with Sim(clock=Clock()):
            st2, got2, v2 = go(p, zoo.make(kind, cur), args2)
        st0, want = zygote.pristine(oracle, p, cur)
    ctx.event(kind, trace, st0, hash_of(want))
    ctx.sched_key = repr((kind, trace, ch.rec[:200]))
    ctx.nontrivial = bool(trace)
    ctx.count("reach:" + kind)
    if st0 == "exc":
        ctx.count("reach:fresh-fit-raises")
        # a new object refuses this fit; "a fit that completes" is not the case
        return
    for name, a in want[1]:
        if isinstance(a, tuple) and a[0] == "exc":
            ctx.count("raises:%s.%s:%s" % (kind, name, a[1]))
    for st, g, v, where in ((st1, got, v1, "on this object"), (st2, got2, v2, "on a new object of this process")):
        ctx.check(st == "ok", "fit-fails", lambda: "%s: a fit that succeeds in a new process raises %s: %s %s after %r" % (
            kind, type(v).__name__, str(v)[:200], where, trace))
        ctx.check(want == g, "history-dependent", lambda: "%s: the same fit answers differently %s after %r than in a new "
                  "process: %s" % (kind, where, trace, zoo.first_diff(want, g)))


def judged(p, e, a):
    kind = p["kind"]
    if p["via"] == "fit_transform" and kind in ("lcm", "lcmmax", "slimvec"):
        return zoo.canon(e.fit_transform(a[0]))
    if p["via"] == "fit_transform" and kind == "mbdll":
        return zoo.canon(e.fit_discover(*a))
    zoo.fit(e, kind, a)
    return None


def go(p, e, a):
    _, (st, v) = bounded(lambda: (judged(p, e, a), zoo.answers(e, p["kind"], a, p.get("rev", False))), 6_000_000)
    if st == "exc" and isinstance(v, StepBudget):
        raise v
    return st, (v if st == "ok" else type(v).__name__), v


def oracle(p, par):
    warnings.simplefilter("ignore")
    if "n_jobs" in par:
        par = dict(par, n_jobs=1)
    with Sim(clock=Clock()), contextlib.redirect_stdout(io.StringIO()):
        return go(p, zoo.make(p["kind"], par), zoo.inputs(p["kind"], p["final"]))[:2]


def hash_of(x):
    import hashlib
    return hashlib.sha256(repr(x).encode()).hexdigest()[:12]


def edit(est, kind, r):
    """Interactive changes between fits."""
    if kind in ("slim", "slimvec"):
        ks = sorted(map(tuple, map(sorted, est.codetable_)))
        c = frozenset(ks[r % len(ks)]) | frozenset(ks[(r // 7) % len(ks)])
        est.update(candidate=c)
    elif kind == "slimclf":
        edit(est.models_[r % len(est.models_)], "slim", r)
    elif kind == "mdlp":
        est.transform(np.array([[1.0]]))
    elif kind == "periodic":
        est.export_patterns("/dev/null")
    elif kind == "graph":
        est.patterns().clear()
    else:
        est.get_params()

"""C21: constructor parameters through any history of fits, failures, interrupts, copies and parameter changes."""
import contextlib
import copy
import io
import pickle
import warnings

from skmine.itemsets import SLIM
from sklearn.base import clone

from .. import gen, zoo, zygote
from ..choose import Chooser
from ..sched import StepBudget, bounded, interrupt
from ..seams import Clock, Sim
from ..simjob import JobSim, user_backend
from .c07 import EXC, _at, edit, go, hash_of, oracle, usable

ID = "C21"
QUICK, THOROUGH = 1500, 50000
RULE = "a run counts if at least one call was made before the judged fit; distinct by digest of the operations and answers"
SHRINK = ["ops", "final.rows", "final.log.occ", "final.graph.edges"]
SCHED_MEASURE = "distinct (operation, outcome, interrupted line, worker schedule) histories"
REAL = ["skmine (all estimators) from /repo", "sklearn's clone and BaseEstimator", "copy, pickle"]
STUB = ["clock", "joblib workers", "interrupts (an exception raised at a seeded source line of skmine)"]
ASSUMES = ["the parameters are the ones get_params lists", "the compared fits see the same clock readings",
           "interrupts arrive between source lines of skmine, not inside set_params"]


def plan(rng, tier):
    kind = rng.choice(zoo.KINDS)
    ops = []

    def dat():
        return zoo.data(kind, rng, size=0.8)
    pool = [dat() for _ in range(2)]
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.25:
            new = zoo.params(kind, rng)
            ks = sorted(new)
            ops.append({"op": "set", "p": {k: new[k] for k in rng.sample(ks, rng.randint(0, len(ks)))}})
        elif r < 0.45:
            o = {"op": "fit", "d": rng.choice(pool)}
            if rng.random() < 0.4:
                o.update(intr=_at(rng), exc=rng.choice(sorted(EXC)))
            ops.append(o)
        elif r < 0.55:
            ops.append({"op": "bad", "how": zoo.bad_data(kind, rng)})
        elif r < 0.65:
            ops.append({"op": "query", "d": rng.choice(pool), "r": rng.randrange(100)})
        elif r < 0.7:
            ops.append({"op": "unknown", "r": rng.randrange(100)})
        elif r < 0.75:
            ops.append({"op": "edit", "r": rng.randrange(1 << 20)})
        else:
            ops.append({"op": rng.choice(["clone", "clone", "copy", "copy", "deepcopy", "pickle", "rebuild"])})
    final = rng.choice(pool)
    if kind == "graph":
        final = dict(final, timeout=None)
    return {"kind": kind, "params": zoo.params(kind, rng), "ops": ops, "final": final, "via": "fit",
            "jobs": gen.job_plan(rng, 0.0) if kind in ("lcm", "lcmmax", "mbdll", "mdlp") and rng.random() < 0.3 else None}


def shown(v):
    """A parameter value as a plain, comparable value (sets and lists by content)."""
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, v))))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(map(shown, v)))
    return (type(v).__name__, repr(v))


def effect(ctx, p, est, cur):
    """Parameters whose documented effect shows in the fitted object itself."""
    kind, kw = p["kind"], zoo.kwargs(p["kind"], cur)
    if kind == "slimclf":
        X, y = zoo.inputs(kind, p["final"])
        for c, m in zip(est.classes_, est.models_):
            alone = ctx.call(lambda: SLIM(items=kw["items"], pruning=kw["pruning"]).fit([t for t, l in zip(X, y) if l == c]))
            if not alone.ok:
                return
            ctx.check(dict(alone.value.codetable_) == dict(m.codetable_), "parameters-ignored", lambda: "SlimClassifier(%r): the model "
                      "of class %r is not SLIM's with these parameters: %r" % (cur, c, sorted(map(sorted, m.codetable_))))
        ctx.count("reach:class-models")
    elif kind == "slimvec":
        X = zoo.inputs(kind, p["final"])[0]
        o = ctx.call(est.transform, X)
        if not o.ok:
            return
        stop = kw["stop_items"] or set()
        bad = [c for c in o.value.columns if set(c) & set(stop)]
        ctx.check(not bad, "parameters-ignored", lambda: "SLIMVectorizer(%r) gives columns %r with stop items" % (cur, bad))
        ctx.check(o.value.shape[1] <= kw["k"], "parameters-ignored",
                  lambda: "SLIMVectorizer(%r) gives %d columns" % (cur, o.value.shape[1]))
        if kw["strategy"] == "one-hot":
            ctx.check(set(o.value.values.ravel().tolist()) <= {0.0, 1.0}, "parameters-ignored",
                      lambda: "SLIMVectorizer(%r) gives other values than 0 and 1" % (cur,))
        known = {i for k in est.codetable_ for i in k}
        ctx.check(kw["items"] is None or set(kw["items"]) <= known, "parameters-ignored",
                  lambda: "SLIMVectorizer(%r): the code table lacks some of the items" % (cur,))


def execute(p, ctx):
    warnings.simplefilter("ignore")
    kind = p["kind"]
    if not usable(p["final"]):
        ctx.nontrivial = False
        return
    ch = Chooser(p["sched_seed"], p.get("choices"))
    ctx.choices_rec = ch.rec
    jp = p["jobs"]
    cur = dict(p["params"])
    if jp:
        cur["n_jobs"] = jp["n_jobs"]
    trace = []
    mine = dict(zoo.kwargs(kind, cur))
    est = zoo.CLS[kind](**mine)

    def sim():
        return Sim(clock=Clock(), jobs=JobSim(ch, jp["mode"], jp["batch"], mean_gap=jp["gap"]) if jp else None)

    defaults = {k: shown(v) for k, v in zoo.CLS[kind]().get_params().items()}

    def judge(e, what, want):
        o = ctx.call(e.get_params)
        if not o.ok:
            ctx.fail("exception", "%s: get_params raised %s: %s after %r" % (kind, type(o.exc).__name__, o.exc, trace + [what]))
        exp = dict(defaults, **{k: shown(v) for k, v in zoo.kwargs(kind, want).items()})
        got = {k: shown(v) for k, v in o.value.items()}
        diff = {k: (got.get(k), exp.get(k)) for k in set(exp) | set(got) if got.get(k) != exp.get(k)}
        ctx.check(not diff, "parameters-changed", lambda: "%s: after %r the parameters are not the ones that were set: %s" % (
            kind, trace + [what], {k: "%r instead of %r" % v for k, v in sorted(diff.items())}))
        for k, v in mine.items():  # the caller's own objects
            ctx.check(shown(v) == shown(zoo.kwargs(kind, cur).get(k, v)) or k not in cur, "argument-changed",
                      lambda: "%s: after %r the object passed as %s was changed to %r" % (kind, trace + [what], k, v))

    judge(est, "construction", cur)
    with contextlib.redirect_stdout(io.StringIO()):
        for op in p["ops"]:
            what = op["op"]
            if op.get("d") is not None and not usable(op["d"]):
                continue
            st, where = "ok", None
            if what == "set":
                new = zoo.kwargs(kind, op["p"])
                o = ctx.call(est.set_params, **new)
                if not o.ok:
                    ctx.fail("exception", "%s: set_params(%s) raised %s: %s after %r" % (
                        kind, sorted(new), type(o.exc).__name__, o.exc, trace))
                ctx.check(o.value is est, "set-params-result", lambda: "%s: set_params did not return the estimator" % kind)
                cur = dict(cur, **op["p"])
                mine.update(new)
            elif what == "unknown":
                # a name the library has never heard of, or the name of something else the object holds
                names = ["no_such_parameter"] + sorted(set(vars(est)) - set(defaults))
                name = names[op.get("r", 0) % len(names)]
                o = ctx.call(est.set_params, **{name: 3})
                ctx.check(not o.ok and isinstance(o.exc, ValueError), "unknown-accepted",
                          lambda: "%s: set_params accepts a parameter that does not exist: %s" % (kind, name))
            elif what in ("clone", "copy", "deepcopy", "pickle", "rebuild"):
                f = {"clone": clone, "copy": copy.copy, "deepcopy": copy.deepcopy, "rebuild": lambda e: type(e)(**e.get_params()),
                     "pickle": lambda e: pickle.loads(pickle.dumps(e))}[what]
                o = ctx.call(f, est)
                if not o.ok:
                    ctx.fail("exception", "%s: %s raised %s: %s after %r" % (kind, what, type(o.exc).__name__, str(o.exc)[:300], trace))
                ctx.check(type(o.value) is type(est), "other-class", lambda: "%s: %s of a %s gives a %s" % (
                    kind, what, type(est).__name__, type(o.value).__name__))
                judge(o.value, what, cur)
                judge(est, what, cur)
                est = o.value
                mine = {}
            else:
                if what == "fit":
                    args = zoo.inputs(kind, op["d"])
                    if kind == "graph" and op["d"].get("timeout"):
                        args = (args[0], 0.004)
                    fn = lambda: zoo.fit(est, kind, args)
                elif what == "bad":
                    args = zoo.bad_inputs(kind, op["how"])
                    fn = lambda: zoo.fit(est, kind, args)
                elif what == "query":
                    qs = zoo.probes(kind, zoo.inputs(kind, op["d"]))
                    q = qs[op["r"] % len(qs)]
                    fn = lambda: q[1](est)
                else:
                    fn = lambda: edit(est, kind, op["r"])
                with sim(), user_backend(jp["mode"] if jp else "procs"):
                    if op.get("intr"):
                        ctx.count("planned:interrupt")
                        where, (st, v) = interrupt(fn, op["intr"], EXC[op["exc"]]("simulated"))
                        if where:
                            ctx.count("fault:interrupt")
                            st = "interrupted"
                    else:
                        _, (st, v) = bounded(fn, 3_000_000)
                        if what == "bad" and st == "exc":
                            ctx.count("fault:rejected-input")
                if st == "exc" and isinstance(v, StepBudget):
                    if what == "bad":
                        ctx.nontrivial = False
                        return
                    raise v
            judge(est, what, cur)
            trace.append((what, st, where))
        args = zoo.inputs(kind, p["final"])
        with sim(), user_backend(jp["mode"] if jp else "procs"):
            st1, got, v1 = go(p, est, args)
        st0, want = zygote.pristine(oracle, p, cur)
    ctx.event(kind, trace, st0, hash_of(want))
    ctx.sched_key = repr((kind, trace, ch.rec[:200]))
    ctx.nontrivial = bool(trace)
    ctx.count("reach:" + kind)
    judge(est, "final fit", cur)
    if st0 == "exc":
        ctx.count("reach:fresh-fit-raises")
        return
    ctx.check(st1 == "ok", "fit-fails", lambda: "%s: a fit that succeeds on a new object raises %s: %s after %r" % (
        kind, type(v1).__name__, str(v1)[:200], trace))
    effect(ctx, p, est, cur)
    ctx.check(want == got, "parameters-ignored", lambda: "%s: after %r a fit does not answer like a new object with the "
              "parameters %r: %s" % (kind, trace, cur, zoo.first_diff(want, got)))

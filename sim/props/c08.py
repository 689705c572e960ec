"""C08: fitted models survive pickling, deep copies and restarts in other processes."""
import contextlib
import copy
import io
import os
import pickle
import warnings

import cloudpickle
import joblib

from .. import remote, zoo, zygote
from ..sched import StepBudget, bounded
from ..seams import Clock, Disk, Scratch, Sim, SimCrash
from .c07 import edit, hash_of, usable

ID = "C08"
QUICK, THOROUGH = 1600, 60000
RULE = "a run counts if a fitted model was checkpointed and the restored one was asked; distinct by kind, history, checkpoint and answers"
SHRINK = ["history", "data.0.rows", "data.0.log.occ", "data.1.rows", "data.1.log.occ"]
SCHED_MEASURE = "distinct (estimator, history, checkpoint method, crash point, what happens afterwards on which side) sequences"
REAL = ["skmine (all estimators) from /repo", "pickle, cloudpickle, joblib persistence, copy", "real separate processes, also "
        "with another string hash seed"]
STUB = ["clock", "file system calls below the checkpoint file (crash points, torn writes)"]
ASSUMES = ["the restoring process runs the same version of the library", "no unpicklable callbacks are attached to the model"]

KINDS = zoo.KINDS


def plan(rng, tier):
    kind = rng.choice(KINDS + ["slim", "periodic"])
    data = [zoo.data(kind, rng, size=0.9) for _ in range(3)]
    hist = [{"op": "fit", "d": rng.randrange(3)}]
    for _ in range(rng.choice([0, 0, 1, 2])):
        hist.append(rng.choice([{"op": "fit", "d": rng.randrange(3)}, {"op": "query", "r": rng.randrange(100)},
                                {"op": "edit", "r": rng.randrange(1 << 20)}]))
    how = rng.choice(["pickle2", "pickle4", "pickle5", "cloudpickle", "deepcopy", "deepcopy", "joblib", "process", "process", "hash", "hash"])
    p = {"kind": kind, "params": zoo.params(kind, rng), "data": data, "history": hist, "how": how, "hops": rng.choice([1, 1, 1, 2]),
         "rev": rng.random() < 0.5,
         "after": [{"side": rng.randrange(2), "op": rng.choice(["fit", "fit", "edit", "query"]), "d": rng.randrange(3),
                    "r": rng.randrange(1 << 20)} for _ in range(rng.randint(1, 3))],
         "crash": {"at": rng.randrange(6), "kind": rng.choice(["crash", "torn", "torn"]), "frac": rng.choice([0.1, 0.5, 0.9])}
         if how == "joblib" and rng.random() < 0.6 else None}
    return p


def ask(p, blob, d):
    """In another process: restore, answer, and hand the model back."""
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()), Sim(clock=Clock()):
        e = pickle.loads(blob)
        a = zoo.answers(e, p["kind"], zoo.inputs(p["kind"], d), rev=p["rev"])
        return a, pickle.dumps(e)


def execute(p, ctx):
    warnings.simplefilter("ignore")
    kind, data = p["kind"], p["data"]
    if not all(usable(d) for d in data):
        ctx.nontrivial = False
        return
    trace = []

    def guard(fn):
        with contextlib.redirect_stdout(io.StringIO()), Sim(clock=Clock()):
            n, (st, v) = bounded(fn, 6_000_000)
        if st == "exc" and isinstance(v, StepBudget):
            raise v
        return st, v

    def act(e, op, cur):
        """Returns the index of the data the model is fitted on afterwards."""
        if op["op"] == "fit":
            st, v = guard(lambda: zoo.fit(e, kind, zoo.inputs(kind, data[op["d"]])))
            if st == "exc":
                raise v
            return op["d"]
        if op["op"] == "query":
            qs = zoo.probes(kind, zoo.inputs(kind, data[cur]))
            guard(lambda: qs[op["r"] % len(qs)][1](e))
        else:
            guard(lambda: edit(e, kind, op["r"]))
        return cur

    def answers(e, d, rev=False):
        st, v = guard(lambda: zoo.answers(e, kind, zoo.inputs(kind, data[d]), rev=rev))
        if st == "exc":
            raise v
        return v
    e = zoo.make(kind, p["params"])
    cur = None
    for op in p["history"]:
        if cur is None and op["op"] != "fit":
            continue
        try:
            cur = act(e, op, cur)
        except Exception as x:
            ctx.event("fit raises", type(x).__name__)
            ctx.nontrivial = False
            return
        trace.append(op["op"])
    if cur is None:
        ctx.nontrivial = False
        return
    want = answers(e, cur)
    how = p["how"]
    what = "%s after %s, %s" % (kind, "/".join(trace), how)
    crashed = None
    for hop in range(p["hops"]):
        def save():
            if how == "deepcopy":
                return copy.deepcopy(e if hop == 0 else r)
            if how == "cloudpickle":
                return cloudpickle.dumps(e if hop == 0 else r)
            return pickle.dumps(e if hop == 0 else r, protocol=int(how[6:]) if how.startswith("pickle") else 5)
        if how == "joblib":
            src = e if hop == 0 else r
            with Scratch() as sc:
                disk = Disk(sc.root, bufsize=64)
                path = os.path.join(sc.cwd, "model.joblib")
                if p["crash"]:
                    ctx.count("planned:" + p["crash"]["kind"])
                    disk.arm([p["crash"]])
                    try:
                        with Sim(clock=Clock(), disk=disk):
                            joblib.dump(src, path)
                    except (SimCrash, OSError):
                        pass
                    if disk.dead:
                        crashed = True
                        ctx.count("fault:" + p["crash"]["kind"])
                        disk.revive()
                    disk.arm([])
                    if os.path.exists(path):
                        # what a restart finds: unreadable, or the whole model
                        try:
                            half = joblib.load(path)
                        except Exception:
                            half = None
                            ctx.count("reach:torn-checkpoint-refused")
                        if half is not None:
                            ctx.check(answers(half, cur, p["rev"]) == want, "torn-checkpoint", lambda: what + ": a checkpoint cut short by a "
                                      "crash restores to another model")
                st, v = guard(lambda: joblib.dump(src, path))
                ctx.check(st == "ok", "checkpoint-fails", lambda: "%s: saving raised %s: %s" % (what, type(v).__name__, str(v)[:200]))
                st, r = guard(lambda: joblib.load(path))
                ctx.check(st == "ok", "restore-fails", lambda: "%s: restoring raised %s: %s" % (what, type(r).__name__, str(r)[:200]))
        else:
            st, v = guard(save)
            ctx.check(st == "ok", "checkpoint-fails", lambda: "%s: saving raised %s: %s" % (what, type(v).__name__, str(v)[:200]))
            if how == "deepcopy":
                r = v
            elif how in ("process", "hash"):
                try:
                    if how == "process":
                        got, back = zygote.pristine(ask, p, v, data[cur])
                    else:
                        got, back = remote.call(1 + p["sched_seed"] % 2, ask, p, v, data[cur])
                except Exception as x:
                    ctx.fail("restore-fails", "%s: restoring in another process raised %s" % (what, str(x)[:300]))
                ctx.count("reach:restored-elsewhere")
                ctx.check(got == want, "answers-differ", lambda: "%s: the model restored in another process answers "
                          "differently: %s" % (what, zoo.first_diff(want, got)))
                st, r = guard(lambda: pickle.loads(back))
                ctx.check(st == "ok", "restore-fails", lambda: "%s: coming back raised %s: %s" % (what, type(r).__name__, str(r)[:200]))
            else:
                st, r = guard(lambda: pickle.loads(v))
                ctx.check(st == "ok", "restore-fails", lambda: "%s: restoring raised %s: %s" % (what, type(r).__name__, str(r)[:200]))
    if kind == "periodic":  # both were asked for their table before the checkpoint, so both can draw
        bare = [guard(lambda: x.draw_pattern(0).source) for x in (e, r)]
        bare = [(st, v if st == "ok" else type(v).__name__) for st, v in bare]
        ctx.check(bare[0] == bare[1], "answers-differ", lambda: "%s: draw_pattern gives %r on the original and %r on the restored "
                  "model" % (what, bare[0], bare[1]))
    got = answers(r, cur, p["rev"])  # the order of the questions does not matter either
    ctx.check(got == want, "answers-differ", lambda: "%s: the restored model answers differently: %s" % (what, zoo.first_diff(want, got)))
    got = answers(e, cur)
    ctx.check(got == want, "original-changed", lambda: "%s: the original answers differently after the checkpoint: %s" % (
        what, zoo.first_diff(want, got)))
    # whatever happens to one of them does not reach the other
    sides = [[e, cur, want], [r, cur, want]]
    for k, op in enumerate(p["after"]):
        s, o = sides[op["side"]], sides[1 - op["side"]]
        try:
            s[1] = act(s[0], op, s[1])
        except Exception as x:
            ctx.fail("fit-fails", "%s: fit on the %s raised %s: %s" % (what, ("original", "restored model")[op["side"]],
                                                                        type(x).__name__, str(x)[:200]))
        got = answers(o[0], o[1])
        ctx.check(got == o[2], "not-independent", lambda: "%s: %s on the %s changes the answers of the %s: %s" % (
            what, op["op"], ("original", "restored model")[op["side"]], ("restored model", "original")[op["side"]],
            zoo.first_diff(o[2], got)))
        s[2] = answers(s[0], s[1])
        trace.append((op["side"], op["op"]))
    # both go on working alike
    if all(op["op"] == "fit" for op in p["after"]):
        last = p["after"][-1]["d"]
        res = []
        for s in sides:
            act(s[0], {"op": "fit", "d": last}, s[1])
            res.append(answers(s[0], last))
        ctx.check(res[0] == res[1], "refit-differs", lambda: "%s: the same fit on the restored model and on the original "
                  "gives different answers: %s" % (what, zoo.first_diff(res[0], res[1])))
    ctx.count("reach:" + kind)
    ctx.sched_key = repr((kind, trace, how, p["hops"], crashed))
    ctx.event(ctx.sched_key, hash_of(want))

"""C16: callback programs: attachments, nested calls, raising callbacks, interrupts, threads, against a reference."""
import contextlib
import functools
import io
import random
import threading

import numpy as np
import pandas as pd
from skmine.callbacks import CallBacks, mdl_prints
from skmine.itemsets import SLIM

from .. import gen
from ..choose import Chooser
from ..sched import ThreadSched, interrupt
from ..seams import Clock, Sim
from . import slim_common as sc

ID = "C16"
QUICK, THOROUGH = 18000, 400000
RULE = "a run counts if at least one callback was invoked; distinct by digest of the schedule and the event log"
SHRINK = ["threads", "threads.0", "threads.1", "attach", "D"]
SCHED_MEASURE = "distinct sequences of (preempted thread, source line, next thread)"
REAL = ["skmine.callbacks from /repo", "skmine.itemsets.slim from /repo (half of the objects)"]
STUB = ["thread scheduler", "clock", "target objects of the toy programs"]
ASSUMES = ["callbacks with several parameters are attached to methods that return a tuple they accept"]

EXCS = {"TypeError": TypeError, "ValueError": ValueError, "KeyError": KeyError, "AttributeError": AttributeError,
        "StopIteration": StopIteration, "KeyboardInterrupt": KeyboardInterrupt, "AssertionError": AssertionError,
        "MemoryError": MemoryError, "SystemExit": SystemExit}
METHODS = ["f", "g", "h", "k", "l"]
ANY = ["one", "pos", "self", "self_res", "append", "partial", "obj", "kwdef", "meth"]
TUP = ["multi", "exact", "self_multi", "extend", "star"]


def plan(rng, tier):
    if rng.random() < 0.2:
        return plan_slim(rng)
    nobj = rng.choice([1, 2, 2, 3])
    bodies = {}
    for o in range(nobj):
        for i, m in enumerate(METHODS):
            later = METHODS[i + 1:]
            bodies["%d%s" % (o, m)] = {
                "nested": [rng.choice(later) for _ in range(rng.choice([0, 0, 0, 1, 2]))] if later else [],
                "ret": rng.choice(["int", "none", "tuple2", "tuple2", "tuple3", "tuple1", "tuple0", "list", "str", "dict",
                                   "iter", "array", "frame", "set", "self"])}
    attach = []
    for a in range(rng.randint(1, 5)):
        ms = rng.sample(METHODS, rng.choice([1, 1, 1, 2, 2, 3, 5]))
        cbs = {}
        for m in ms:
            cbs[m] = {"kind": rng.choice(ANY + TUP), "id": "%d%s" % (a, m)}
            if rng.random() < 0.3:
                cbs[m]["raise"] = [rng.choice(sorted(EXCS)), rng.randrange(3)]
            if rng.random() < 0.2 and m != METHODS[-1]:
                cbs[m]["reenter"] = rng.choice(METHODS[METHODS.index(m) + 1:])
        attach.append({"cbs": cbs, "objs": [rng.randrange(nobj) for _ in range(rng.choice([1, 1, 2]))]})
    nt = rng.choice([1, 1, 2, 3])
    threads = []
    for t in range(nt):
        threads.append([{"obj": rng.randrange(nobj), "m": rng.choice(METHODS),
                         "raise": rng.choice(sorted(EXCS)) if rng.random() < 0.15 else None,
                         "kw": rng.random() < 0.3} for _ in range(rng.randint(1, 6))])
    return {"kind": "toy", "nobj": nobj, "bodies": bodies, "attach": attach, "threads": threads,
            "late": rng.random() < 0.4, "gap": rng.choice([1, 2, 4, 10, -1]),
            "interrupt": [rng.randrange(6), rng.randint(1, 14)] if nt == 1 and rng.random() < 0.25 else None}


def plan_slim(rng):
    return {"kind": "slim", "D": sc.rich(rng, max_t=10, max_i=6), "itype": rng.choice(gen.ITYPES),
            "pruning": rng.random() < 0.5, "prints": rng.random() < 0.4, "seed": rng.randrange(1 << 20),
            "attach": [[rng.choice(["evaluate", "generate_candidates", "update", "fit", "transform"]),
                        rng.choice(["one", "self", "self_res", "append"])] for _ in range(rng.randint(1, 4))],
            "raise": [rng.randrange(3), rng.choice(sorted(EXCS)), rng.randrange(4)] if rng.random() < 0.3 else None,
            "threads": []}


class World:
    """Interprets a program.  real: calls go through the objects' attributes, else through the reference rule."""

    def __init__(self, p, real):
        self.p, self.real = p, real
        self.objs = [Toy(self, i) for i in range(p["nobj"])]
        self.table = {}
        self.loc = {}
        self.raised = {}

    def st(self):
        return self.loc.setdefault(threading.get_ident(), {"log": [], "n": 0, "raise": None, "inv": {}, "vals": []})

    def log(self, *x):
        self.st()["log"].append(x)

    def value(self, kind, tag, obj):
        if kind == "int":
            return tag
        if kind == "none":
            return None
        if kind.startswith("tuple"):
            return tuple((tag, i) for i in range(int(kind[5:])))
        if kind == "list":
            return [tag, tag + 1]
        if kind == "str":
            return "s%d" % tag
        if kind == "dict":
            return {tag: 1, "b": 2}
        if kind == "iter":
            return iter([tag, tag + 1, tag + 2])
        if kind == "array":
            return np.array([tag, 2, 3])
        if kind == "frame":
            return pd.DataFrame({"a": [tag]})
        if kind == "set":
            return {tag}
        return obj

    def show(self, v):
        if isinstance(v, Toy):
            return "obj%d" % v.i
        if isinstance(v, np.ndarray):
            return "array%r" % v.tolist()
        if isinstance(v, pd.DataFrame):
            return "frame%r" % v.values.tolist()
        if type(v).__name__ == "list_iterator":
            return "iter%r" % list(v.__reduce__()[1][0] if v.__length_hint__() else [])[:9]
        if isinstance(v, tuple):
            return "(" + ",".join(self.show(x) for x in v) + ")"
        return repr(v)

    def body(self, obj, m, args, kw):
        s = self.st()
        b = self.p["bodies"]["%d%s" % (obj.i, m)]
        tag = s["n"] * 10 + obj.i
        s["n"] += 1
        self.log("body", obj.i, m, tag, args, sorted(kw))
        fail = s["raise"]
        s["raise"] = None
        for n in b["nested"]:
            self.invoke(obj, n, tag)
        if fail:
            self.log("body-raises", obj.i, m, fail)
            raise EXCS[fail]("body %d%s" % (obj.i, m))
        v = self.value(b["ret"], tag, obj)
        self.log("return", obj.i, m, self.show(v))
        return v

    def invoke(self, obj, m, *args, **kw):
        if self.real:
            return getattr(obj, m)(*args, **kw)
        v = self.body(obj, m, args, kw)
        for cb in self.table.get((obj.i, m), ()):
            k = cb["kind"]
            if k in ("self",):
                a = (obj,)
            elif k == "self_res":
                a = (obj, v)
            elif k == "self_multi":
                a = (obj,) + v
            elif k in ("multi", "exact", "star"):
                a = tuple(v)
            else:
                a = (v,)
            self.cb_body(cb, obj, a)
        return v

    # what a callback does, whatever its signature
    def cb_body(self, cb, obj, args):
        s = self.st()
        n = s["inv"][cb["id"]] = s["inv"].get(cb["id"], 0) + 1
        self.log("cb", cb["id"], [self.show(a) for a in args])
        if cb.get("reenter") is not None and obj is not None:
            self.invoke(obj, cb["reenter"], "re")
        r = cb.get("raise")
        if r and n == r[1] + 1:
            self.log("cb-raises", cb["id"], r[0])
            raise EXCS[r[0]]("callback %s" % cb["id"])

    def make(self, cb, obj):
        """A real callable with the signature the kind stands for.  Builtins log through a list subclass."""
        w, k = self, cb["kind"]
        run = lambda *a: w.cb_body(cb, obj, a)
        if k == "one":
            return lambda res: run(res)
        if k == "pos":
            def pos(res, /):
                run(res)
            return pos
        if k == "kwdef":
            def kwdef(res, *, opt=3):
                run(res)
            return kwdef
        if k == "self":
            def only_self(self):
                run(self)
            return only_self
        if k == "self_res":
            def self_res(self, res):
                run(self, res)
            return self_res
        if k == "self_multi":
            if cb["arity"] == 2:
                def self_multi(self, a, b, *rest):
                    run(self, a, b, *rest)
                return self_multi

            def self_multi3(self, a, b, c):
                run(self, a, b, c)
            return self_multi3
        if k == "multi":
            def multi(a, b, *rest):
                run(a, b, *rest)
            return multi
        if k == "exact":
            if cb["arity"] == 2:
                return lambda a, b: run(a, b)
            return lambda a, b, c: run(a, b, c)
        if k == "star":
            return lambda *a: run(*a)
        if k == "partial":
            return functools.partial(lambda tag, res: run(res), "t")
        if k == "obj":
            class Obj:
                def __call__(inner, res):
                    run(res)
            return Obj()
        if k == "meth":
            class Has:
                def meth(inner, res):
                    run(res)
            return Has().meth
        raise ValueError(k)


class Sink(list):
    def __init__(self, fn):
        self.fn = fn

    def append(self, object, /):
        self.fn(object)

    def extend(self, iterable, /):
        self.fn(iterable)


class Toy:
    def __init__(self, w, i):
        self._w = w
        self.i = i

    def f(self, *a, **k):
        return self._w.body(self, "f", a, k)

    def g(self, *a, **k):
        return self._w.body(self, "g", a, k)

    def h(self, *a, **k):
        return self._w.body(self, "h", a, k)

    def k(self, *a, **k):
        return self._w.body(self, "k", a, k)

    def l(self, *a, **k):
        return self._w.body(self, "l", a, k)


def usable(p, cb, o, m):
    """The callback as attached to method m of object o, or None if the pair is outside the supported signatures."""
    ret = p["bodies"]["%d%s" % (o, m)]["ret"]
    if cb["kind"] in ("multi", "self_multi", "exact"):
        if ret not in ("tuple2", "tuple3"):
            return None
        return dict(cb, arity=int(ret[5:]))
    if cb["kind"] == "star" and not ret.startswith("tuple"):
        return None
    return dict(cb)


def attach_all(p, w, upto):
    for a in p["attach"][upto[0]:upto[1]]:
        for o in a["objs"]:
            cbs = {}
            for m in sorted(a["cbs"]):
                u = usable(p, a["cbs"][m], o, m)
                if u is None:
                    continue
                u["id"] += "/%d" % o
                cbs[m] = u
            if not cbs:
                continue
            if w.real:
                obj = w.objs[o]
                real = {}
                for m, u in cbs.items():
                    if u["kind"] in ("append", "extend"):
                        real[m] = getattr(Sink(lambda x, u=u, obj=obj: w.cb_body(u, obj, (x,))), u["kind"])
                    else:
                        real[m] = w.make(u, obj)
                CallBacks(**real)(obj)
            else:
                for m, u in cbs.items():
                    w.table.setdefault((o, m), []).append(u)


def run_ops(p, w, ops, lo, hi, intr=None):
    """Outcomes of the calls of one thread."""
    out = []
    s = w.st()
    for k, op in enumerate(ops[lo:hi], lo):
        obj = w.objs[op["obj"]]
        s["raise"] = op["raise"]
        kw = {"key": k} if op["kw"] else {}
        fn = lambda: w.invoke(obj, op["m"], k, **kw)
        w.log("call", k)
        try:
            if intr is not None and intr[0] == k:
                w.log("interrupt-armed")
                fired, (st, v) = interrupt(fn, intr[1], KeyboardInterrupt("sim"))
                intr[2] = fired
                if st == "exc":
                    raise v
            else:
                v = fn()
            r = ("ok", w.show(v))
        except BaseException as e:
            r = ("exc", type(e).__name__, str(e))
        w.log("result", k, r)
        out.append(r)
    return out


def execute(p, ctx):
    if p["kind"] == "slim":
        return execute_slim(p, ctx)
    if not p["threads"] or not all(p["threads"]):
        ctx.nontrivial = False
        return
    half = len(p["attach"]) // 2 if p["late"] else len(p["attach"])
    ch = Chooser(p["sched_seed"], p["choices"])
    ctx.choices_rec = ch.rec
    real, ref = World(p, True), World(p, False)
    switches = []
    logs = {}
    for w in (ref, real):
        logs[w.real] = [[] for _ in p["threads"]]
        for phase in ((0, half), (half, len(p["attach"]))):
            if phase[0] == phase[1] and phase[0]:
                continue
            o = ctx.call(attach_all, p, w, phase)
            if not o.ok:
                ctx.fail("attach", "attaching callbacks raised %r" % o.exc)
            rng = [(0, len(t)) if not p["late"] else ((0, len(t) // 2) if phase[0] == 0 else (len(t) // 2, len(t)))
                   for t in p["threads"]]
            intr = [p["interrupt"][0], p["interrupt"][1], None] if p["interrupt"] and w.real else None
            def body(i):
                w.st().update({"log": [], "n": 1000 * (i + 1) + 300 * bool(phase[0]), "raise": None})
                run_ops(p, w, p["threads"][i], rng[i][0], rng[i][1], intr)
                lg = w.st()["log"]
                del w.loc[threading.get_ident()]
                return lg
            if w.real and len(p["threads"]) > 1:
                sch = ThreadSched(ch, mean_gap=p["gap"])
                with Sim(clock=Clock(), sched=sch):
                    outs = sch.run([lambda i=i: body(i) for i in range(len(p["threads"]))])
                for st, v in outs:
                    if st != "ok":
                        raise v
                outs = [v for _, v in outs]
                switches += sch.switches
                ctx.count("fault:thread-switch", len(sch.switches))
            else:
                outs = [body(i) for i in range(len(p["threads"]))]
            for i, v in enumerate(outs):
                logs[w.real][i] += [("phase", phase[0])] + v
            if intr is not None and intr[2] is not None:
                ctx.count("fault:interrupt")
                ctx.count("reach:interrupted")
    ctx.sched_key = repr(switches)[:6000]
    ctx.event([s[:3] for s in switches])
    ncb = 0
    for i, (a, b) in enumerate(zip(logs[True], logs[False])):
        ctx.event(a)
        ncb += sum(1 for e in b if e[0] == "cb")
        for e in b:
            if e[0] == "cb-raises":
                ctx.count("fault:callback-raises")
            if e[0] == "body-raises":
                ctx.count("fault:method-raises")
        if p["interrupt"]:
            a, b = drop_interrupted(ctx, a, b, p["interrupt"][0])
        if a != b:
            k = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
            ctx.fail("callback-log", "thread %d: event %d is %r, expected %r (before: %r)" % (
                i, k, a[k] if k < len(a) else "nothing", b[k] if k < len(b) else "nothing", a[max(0, k - 3):k]))
        ctx.count("checks", len(b))
    ctx.count("reach:callbacks", ncb)
    ctx.nontrivial = ncb > 0


def drop_interrupted(ctx, a, b, k):
    """The interrupted call itself may stop anywhere (each callback at most once per completed method); the rest of
    the history must be as if it had stopped there.  Value tags continue from the calls really made, so compare the
    rest without tags."""
    def split(lg):
        out, cur = {}, None
        for e in lg:
            if e[0] == "phase":
                continue
            if e[0] == "call":
                cur = e[1]
            out.setdefault(cur, []).append(e)
        return out
    sa, sb = split(a), split(b)
    ia, ib = sa.pop(k, []), sb.pop(k, [])
    ca = [e[1] for e in ia if e[0] == "cb"]
    cb = [e[1] for e in ib if e[0] == "cb"]
    ctx.check(not any(ca.count(x) > cb.count(x) for x in set(ca)), "callback-log",
              lambda: "interrupted call ran callbacks %r, at most %r expected" % (ca, cb))
    strip = lambda s: [(c, e[0], e[1], e[2] if e[0] in ("body",) else None) for c in sorted(s) for e in s[c]
                       if e[0] in ("body", "cb", "call")]
    if any(e[0] == "cb-raises" for e in b):
        return [], []  # the n-th invocation of a callback is a different one after an interrupt
    return strip(sa), strip(sb)


class CountingSLIM(SLIM):
    log = None

    def _note(self, name, fn, *a, **k):
        self.log.append(("enter", name))
        try:
            v = fn(*a, **k)
        except BaseException:
            self.log.append(("raised", name))
            raise
        self.log.append(("done", name, id(v)))
        self.log.keep.append(v)
        return v

    def evaluate(self, *a, **k):
        v = self._note("evaluate", super().evaluate, *a, **k)
        self.log.gains.append((self.data_size_ + self.model_size_) - (v[0] + v[1]) > 0.01)
        return v

    def generate_candidates(self, *a, **k):
        return self._note("generate_candidates", super().generate_candidates, *a, **k)

    def update(self, *a, **k):
        return self._note("update", super().update, *a, **k)

    def fit(self, *a, **k):
        return self._note("fit", super().fit, *a, **k)

    def transform(self, *a, **k):
        return self._note("transform", super().transform, *a, **k)


class Log(list):
    def __init__(self):
        super().__init__()
        self.keep = []
        self.gains = []


def execute_slim(p, ctx):
    D = [t for t in p["D"] if t]
    if not D:
        ctx.nontrivial = False
        return
    X = gen.typed(D, p["itype"])
    with Sim(clock=Clock()):
        plain = SLIM(pruning=p["pruning"])
        ctx.must("exception", "fit", plain.fit, X)
    m = CountingSLIM(pruning=p["pruning"])
    log = m.log = Log()
    count = [0]
    raising = p["raise"] and p["raise"][0] % len(p["attach"]) if p["attach"] else None

    def hit(i, name, obj, res):
        log.append(("cb", i, name, obj is None or obj is m, None if res is Ellipsis else id(res)))
        if p["raise"] and i == raising:
            count[0] += 1
            if count[0] == p["raise"][2] + 1:
                log.append(("cb-raises", i))
                raise EXCS[p["raise"][1]]("sim callback")

    def mk(i, name, kind):
        if kind == "one":
            return lambda res: hit(i, name, None, res)
        if kind == "self":
            def a(self):
                hit(i, name, self, ...)
            return a
        if kind == "self_res":
            def b(self, res):
                hit(i, name, self, res)
            return b
        return Sink(lambda x: hit(i, name, None, x)).append
    by = {}
    buf = io.StringIO()
    with Sim(clock=Clock()), contextlib.redirect_stdout(buf):
        if p["prints"]:
            mdl_prints(m)
        for i, (name, kind) in enumerate(p["attach"]):
            CallBacks(**{name: mk(i, name, kind)})(m)
            by.setdefault(name, []).append((i, kind))
        outcomes = []
        for k in range(3):
            try:
                v = m.fit(X) if k != 1 else m.transform(X)
                outcomes.append(("ok", type(v).__name__))
            except BaseException as e:
                outcomes.append(("exc", type(e).__name__, str(e)))
    ctx.event(outcomes, [e[:3] for e in log if e[0] != "done"])
    # walk the log: after ("done", name, id) come exactly the callbacks of name in attachment order
    pos, ncb = 0, 0
    fired = None
    while pos < len(log):
        e = log[pos]
        pos += 1
        if e[0] == "cb":
            ctx.fail("callback-log", "SLIM: callback %d of %s ran without a completed call before it" % (e[1], e[2]))
        if e[0] == "cb-raises":
            ctx.fail("callback-log", "unexpected")
        if e[0] != "done":
            continue
        stop = False
        for i, kind in by.get(e[1], ()):
            if stop:
                break
            got = log[pos] if pos < len(log) else None
            want = ("cb", i, e[1], True, None if kind == "self" else e[2])
            ctx.check(got == want, "callback-log", lambda: "SLIM.%s: expected callback %d once with the call's result "
                      "next, found %r" % (e[1], i, got and got[:4]))
            pos += 1
            ncb += 1
            if pos < len(log) and log[pos] == ("cb-raises", i):
                pos += 1
                stop = True
                fired = p["raise"][1]
                ctx.count("fault:callback-raises")
    if fired:
        ctx.check(("exc", fired, repr(EXCS[fired]("sim callback").args[0]) if fired == "KeyError" else "sim callback")
                  in outcomes, "callback-exception", lambda: "a callback raised %s but the calls ended as %r" % (
                      fired, outcomes))
    else:
        ctx.check(all(o[0] == "ok" for o in outcomes), "exception", lambda: "calls ended as %r" % (outcomes,))
        ctx.check(sc.table(m) == sc.table(plain), "callback-changes-model", "a SLIM with callbacks attached fits another "
                  "model than one without")
    if p["prints"] and not fired:
        lines = buf.getvalue().splitlines()
        ctx.check(sum("new candidates" in x for x in lines) == sum(e[:2] == ("done", "generate_candidates") for e in log),
                  "prints", "mdl_prints printed another number of candidate lines than there were calls")
        ctx.check(sum("data size" in x for x in lines) == sum(log.gains), "prints",
                  "mdl_prints printed %d size lines for %d improving evaluations" % (
                      sum("data size" in x for x in lines), sum(log.gains)))
    ctx.count("reach:slim-callbacks", ncb)
    ctx.nontrivial = ncb > 0

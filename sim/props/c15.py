"""C15: what a call leaves behind in the process and in the caller's objects, however the call ends."""
import contextlib
import io
import logging
import os
import random
import signal
import socket
import sys
import warnings

import numpy as np
import pandas as pd
import sklearn
from skmine.datasets.utils import describe, describe_logs

from .. import gen, zoo
from ..choose import Chooser
from ..net import Net
from ..sched import StepBudget, ThreadSched, bounded, interrupt
from ..seams import Clock, Disk, Proc, R, Scratch, Sim
from ..simjob import JobSim, user_backend
from . import c12, c17

ID = "C15"
QUICK, THOROUGH = 2500, 80000
RULE = "a run counts if at least one library call was entered; distinct by calls, outcomes, faults and interleaving"
SHRINK = ["threads", "threads.0", "threads.1", "threads.2", "data"]
SCHED_MEASURE = "distinct (calls, outcomes, interruption points, thread switches) histories"
REAL = ["skmine (all estimators, generators and fetchers) from /repo", "joblib dispatch and retrieval",
        "pandas, numpy, pyroaring, networkx"]
STUB = ["thread scheduler", "clock", "joblib workers", "origin and byte stream of downloads", "file system calls (scratch "
        "directory, injected errors)", "interrupts (an exception raised at a seeded source line of skmine)"]
ASSUMES = ["an interrupt that leaves something behind only when it hits one particular line (a restoring statement "
           "itself) is not judged", "random_state is an integer"]


def plan(rng, tier):
    mode = rng.choice(["one", "one", "many", "many", "jobs"])
    nt = 1 if mode != "many" else rng.choice([2, 2, 3])
    data = []

    def est():
        kinds = ["lcm", "lcmmax", "mbdll", "mdlp"] if mode == "jobs" else zoo.KINDS + ["slim", "mbdll", "mdlp"]
        if data and rng.random() < 0.4:
            i = rng.randrange(len(data))
            kind = data[i]["kind"]
        else:
            kind = rng.choice(kinds)
            if rng.random() < 0.25:
                data.append({"kind": kind, "bad": zoo.bad_data(kind, rng)})
            else:
                data.append({"kind": kind, "d": zoo.data(kind, rng, size=0.8)})
            i = len(data) - 1
        return {"c": "est", "kind": kind, "params": zoo.params(kind, rng), "i": i, "q": rng.randint(0, 4), "r": rng.randrange(1000),
                "out": rng.random() < 0.3}

    def call():
        r = rng.random()
        if r < 0.78 or mode == "jobs":
            c = est()
        elif r < 0.88:
            c = {"c": "gen", "g": c17.plan(rng, tier)["gens"][0]}
        elif r < 0.94:
            c = {"c": "describe", "T": gen.transactions(rng), "log": gen.log(rng)}
        else:
            while True:
                q = c12.plan(rng, tier)
                if q["content"][0]["kind"] != "ubiq":
                    break
            c = {"c": "fetch", "content": q["content"][0], "y": rng.random() < 0.3,
                 "net": {"kind": rng.choice(c12.NET[:-1]), "frac": 0.5} if rng.random() < 0.4 else None}
        if mode == "one" and rng.random() < 0.5:
            c["intr"] = int(rng.choice([rng.randint(1, 20), rng.randint(1, 120), rng.randint(1, 800)]))
            c["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError"])
        elif mode == "one" and rng.random() < 0.4:
            c["disk"] = {"at": rng.randrange(12), "kind": rng.choice(["error", "full", "short"]), "errno": "EIO", "frac": 0.5}
        return c
    return {"mode": mode, "threads": [[call() for _ in range(rng.randint(1, 3))] for _ in range(nt)], "data": data,
            "gap": rng.choice([1, 2, 5, 15, -1, -1]), "jobs": gen.job_plan(rng, 0.5) if mode == "jobs" else None,
            "rng": rng.randrange(1000)}


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}


def pandas_options():
    from pandas._config import config
    return {k: repr(config._get_option(k, silent=True)) for k in sorted(config._registered_options)}


def world():
    return {"pandas options": pandas_options(), "numpy's global generator": gen.np_state(),
            "Python's global generator": random.getstate(), "numpy error settings": np.geterr(),
            "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()},
            "working directory": R.os["getcwd"](), "environment": dict(os.environ),
            "warning filters": [repr(f) for f in warnings.filters], "recursion limit": sys.getrecursionlimit(),
            "default socket timeout": socket.getdefaulttimeout(), "interrupt handler": signal.getsignal(signal.SIGINT),
            "standard streams": (id(sys.stdout), id(sys.stderr)), "umask": _umask(), "scikit-learn settings": sklearn.get_config(),
            "warning display": id(warnings.showwarning), "logging switch": logging.root.manager.disable,
            "thread switch interval": sys.getswitchinterval()}


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def restore(w):
    from pandas._config import config
    for k, v in w["pandas options"].items():
        if repr(config._get_option(k, silent=True)) != v:
            pd.reset_option(k)
    np.seterr(**w["numpy error settings"])
    R.os["chdir"](w["working directory"])
    os.environ.clear()
    os.environ.update(w["environment"])
    sys.setrecursionlimit(w["recursion limit"])
    socket.setdefaulttimeout(w["default socket timeout"])
    sys.setswitchinterval(w["thread switch interval"])
    logging.disable(w["logging switch"])


def build(ent):
    """The caller's objects of one data entry."""
    if "bad" in ent:
        return zoo.bad_inputs(ent["kind"], ent["bad"])
    return zoo.inputs(ent["kind"], ent["d"])


def flags(x):
    if isinstance(x, np.ndarray):
        return x.flags.writeable
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return (x.attrs, x.flags.allows_duplicate_labels, repr(type(x)))
    return None


def picture(objs):
    return tuple((zoo.canon(o), repr(flags(o))) for o in objs)


def calls_of(p, t, shared, home, urls):
    """[(description, caller's objects, callable)] of thread t."""
    out = []
    for k, c in enumerate(p["threads"][t]):
        if c["c"] == "gen":
            kw = {a: (list(b) if isinstance(b, list) else b) for a, b in c["g"]["kw"].items()}
            out.append((c, [kw], lambda c=c, kw=kw: c17.call({"fn": c["g"]["fn"], "kw": kw})))
        elif c["c"] == "describe":
            D, log = pd.Series(c["T"]), gen.log_series(c["log"])[0]
            # describe_logs in concurrent threads trips over pandas' own groupby.apply; it is not one of the judged calls
            out.append((c, [D, log], lambda D=D, log=log: (describe(D), p["mode"] == "one" and describe_logs(log))))
        elif c["c"] == "fetch":
            url, body, exp = c12.serve(c["content"])
            urls[url] = body
            fn = c12.fetcher(c["content"], {"y": c["y"], "c": 0}, exp, home)[0]
            out.append((c, [], fn))
        else:
            args = shared[c["i"] % len(shared)]
            if p["data"][c["i"] % len(p["data"])]["kind"] != c["kind"]:
                continue
            kw = zoo.kwargs(c["kind"], c["params"])
            if p["jobs"]:
                kw["n_jobs"] = p["jobs"]["n_jobs"]
            ids = [0]
            out.append((c, list(args) + list(kw.values()) + [ids], lambda c=c, args=args, kw=kw, ids=ids: estimate(
                c, args, kw, ids, os.path.join(home, "out%d_%d" % (t, k)))))
    return out


def estimate(c, args, kw, ids, path):
    kind = c["kind"]
    est = zoo.CLS[kind](**kw)
    try:
        zoo.fit(est, kind, args)
    except Exception as e:
        first = e
    else:
        first = None
    qs = zoo.probes(kind, args)
    if c["out"]:
        if kind in ("lcm", "lcmmax"):
            qs = [("out", lambda e: e.transform(args[0], out=path))]
        elif kind == "slim":
            qs = [("out", lambda e: e.transform(args[0], out=path))]
        elif kind == "periodic":
            qs = [("export", lambda e: (e.export_patterns(path), e.import_patterns(path), e.get_residuals(ids),
                                        e.reconstruct(ids)))]
    for j in range(c["q"]):
        try:
            qs[(c["r"] + j) % len(qs)][1](est)
        except Exception:
            if first is None:
                first = sys.exc_info()[1]
    if first is not None:
        raise first


def attempt(p, ctx, shift, count):
    """One run; returns (list of (kind, message), whether an interrupt fired)."""
    bad, fired = [], False
    ch = Chooser(p["sched_seed"], p.get("choices"))
    if count:
        ctx.choices_rec = ch.rec
    shared = [build(e) for e in p["data"]] or [()]
    urls = {}
    trace = []
    cnt = ctx.count if count else (lambda *a: None)
    with Scratch(("cwd", "tmp", "data")) as sc:
        disk = Disk(sc.root)
        net = Net(urls, disk)
        threads = [calls_of(p, t, shared, sc.data, urls) for t in range(len(p["threads"]))]
        before = [[picture(o) for _, o, _ in th] for th in threads]

        def run_one(t, k, fn):
            try:
                fn()
                return "ok", None
            except BaseException as e:
                if isinstance(e, StepBudget):
                    raise
                return "exc", type(e).__name__

        def body(t):
            for k, (c, objs, fn) in enumerate(threads[t]):
                net.arm("sim%d" % t, [c["net"]] if c.get("net") else [])
                trace.append((t, k, c["c"], c.get("kind")) + run_one(t, k, fn))
        sch = ThreadSched(ch, mean_gap=p["gap"], budget=4_000_000)
        jp = p["jobs"]
        jobs = JobSim(ch, jp["mode"], jp["batch"], jp["faults"], mean_gap=jp["gap"]) if jp else None
        many = p["mode"] == "many"
        w0 = None
        try:
            with Sim(clock=Clock(), disk=disk, net=net, sched=sch if many else None, jobs=jobs, np_seed=p["rng"]):
                w0 = world()
                if many:
                    outs = sch.run([lambda t=t: body(t) for t in range(len(threads))])
                    for st, v in outs:
                        if st != "ok":
                            raise v
                    bad += compare(w0, world(), lambda: "concurrent calls %r" % (trace,))
                else:
                    for k, (c, objs, fn) in enumerate(threads[0] if threads else []):
                        net.arm("MainThread", [c["net"]] if c.get("net") else [])
                        disk.procs = {"MainThread": Proc([c["disk"]] if c.get("disk") else [])}
                        where = None
                        with user_backend(jp["mode"]) if jp else contextlib.nullcontext():
                            if c.get("intr"):
                                cnt("planned:interrupt")
                                at = c["intr"] + shift
                                if at < 1:
                                    return [], False
                                where, (st, v) = interrupt(fn, at, EXC[c["exc"]]("simulated"))
                                if where:
                                    fired = True
                                    cnt("fault:interrupt")
                            else:
                                _, (st, v) = bounded(fn, 3_000_000)
                                if st == "exc" and isinstance(v, StepBudget):
                                    return [], False  # inputs outside the domain; progress is judged elsewhere
                        pr = disk.procs["MainThread"]
                        for kk, _ in pr.fired:
                            cnt("fault:disk-" + kk)
                        disk.procs = {}
                        for f in net.fired.get("MainThread", []):
                            cnt("fault:net-" + f)
                        trace.append((0, k, c["c"], c.get("kind"), st, where, type(v).__name__ if st == "exc" else None))
                        bad += compare(w0, world(), lambda: "call %r" % (trace[-1],))
                        if bad:
                            break
                if jobs is not None:
                    for f in jobs.fired:
                        cnt("fault:job-" + f)
                if many:
                    for t in range(len(threads)):
                        for f in net.fired.get("sim%d" % t, []):
                            cnt("fault:net-" + f)
        finally:
            if w0 is not None:
                restore(w0)
        for t, th in enumerate(threads):
            for k, (c, objs, fn) in enumerate(th):
                now = picture(objs)
                if now != before[t][k]:
                    bad.append(("argument-changed", "%s %s changed an object of its caller: %s; calls: %r" % (
                        c["c"], c.get("kind", ""), zoo.first_diff(before[t][k], now), trace)))
    if count:
        cnt("fault:thread-switch", len(sch.switches))
        ctx.sim_time += sch.steps * 1e-6
        ctx.sched_key = repr((trace, [s[1:] for s in sch.switches[:500]]))
        ctx.event(ctx.sched_key)
        ctx.nontrivial = bool(trace)
        for e in trace:
            cnt("reach:" + (e[3] or e[2]))
            cnt("reach:returned" if e[4] == "ok" else "reach:raised")
    ctx.count("checks", 17 + len(trace))
    return bad, fired


def compare(a, b, what):
    out = []
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                d = {x: (a[k].get(x), b[k].get(x)) for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x)}
            elif "generator" in k:
                d = "state advanced"
            else:
                d = (a[k], b[k])
            out.append(("global-state", "%s left %s changed: %s" % (what(), k, str(d)[:400])))
    return out


def usable(p):
    return all("bad" in e or ok_data(e["d"]) for e in p["data"])


def ok_data(d):
    if "log" in d:
        return len(d["log"]["occ"]) >= 2
    if "graph" in d:
        return bool(d["graph"]["nodes"])
    return len(d["rows"]) >= 2 and all(r[1] for r in d["rows"]) and len({r[0] for r in d["rows"]}) >= 2


def execute(p, ctx):
    if not p["threads"] or not usable(p) or any(c["c"] == "est" for th in p["threads"] for c in th) and not p["data"]:
        ctx.nontrivial = False
        return
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        bad, fired = attempt(p, ctx, 0, True)
        if bad and fired:
            # a restoring statement hit by the interrupt itself is no offence: neighbouring lines must show it too
            near = {0: bad}
            for s in (-2, -1, 1, 2):
                b, f = attempt(p, ctx, s, False)
                near[s] = b if f else []
            if not any(all(near[s + j] for j in range(3)) for s in (-2, -1, 0)):
                ctx.count("reach:interrupted-restore")
                return
    if bad:
        ctx.fail(*bad[0])

"""C03: transform(out=...) on a simulated disk, with simulated workers, crashes and concurrent writers."""
import os
import re

from skmine.itemsets import LCM, SLIM
from skmine.itemsets.lcm import LCMMax

from .. import gen
from ..choose import Chooser
from ..sched import ThreadSched
from ..seams import Clock, Disk, Scratch, Sim, SimCrash, snapshot, R
from ..simjob import JobSim, user_backend

ID = "C03"
QUICK, THOROUGH = 4000, 80000
RULE = "a run counts if at least one result file was written or a fault hit while writing it; distinct by digest"
SHRINK = ["calls", "faults", "by"]
SCHED_MEASURE = "distinct (disk operation log, task order, thread switches) sequences"
REAL = ["skmine.itemsets.lcm and slim from /repo", "shutil, tempfile, io text/buffer layers", "joblib dispatch"]
STUB = ["file system calls (scratch directory with injected errors, short/torn writes, crash points)",
        "joblib workers", "clock"]
ASSUMES = ["crash = process death: data handed to write() survives, user-space buffers do not",
           "items contain no white space (the documented file format is space separated)"]

CLS = {"LCM": LCM, "LCMMax": LCMMax, "SLIM": SLIM}
BYSTANDERS = ["notes.txt", "TEMP_dir/keep.txt", "root0.dat", "temp", "tmp/a.txt", "res.txt.tmp", "res.txt~",
              "res.txt.bak", "sub/other.txt", ".res.txt.swp"]


def plan(rng, tier):
    conc = rng.random() < 0.25
    calls = []
    for k in range(rng.choice([2, 2, 3]) if conc else rng.choice([1, 1, 2])):
        D = gen.transactions(rng, max_t=10, max_i=6, big=0.02)
        algo = rng.choice(["LCM", "LCM", "LCM", "LCMMax", "SLIM"])
        calls.append({"algo": algo, "D": D, "itype": rng.choice(gen.ITYPES[:-1]), "min_supp": gen.min_supp(rng, len(D)),
                      "tids": rng.random() < 0.5, "lex": rng.random() < 0.7,
                      "max_length": rng.choice([-1, -1, 1, 2]), "singletons": rng.random() < 0.7,
                      "drop": rng.random() < 0.7,
                      "out": ("res%d.txt" % k if conc else rng.choice(["res.txt", "sub/res.txt", "ABS"])),
                      "prev": rng.choice([None, "short", "long"]),
                      "jobs": gen.job_plan(rng, fault_rate=0 if conc else 0.25, ntasks=6)})
    share = conc and rng.random() < 0.4
    if share:  # the calls are made on one fitted estimator
        for c in calls[1:]:
            c.update({k: calls[0][k] for k in ("algo", "D", "itype", "min_supp")})
    faults = []
    if not conc and rng.random() < 0.6:
        for _ in range(rng.choice([1, 1, 2])):
            kind = rng.choice(["error", "error", "short", "full", "crash", "crash", "torn"])
            faults.append({"call": rng.randrange(len(calls)), "frac": rng.random(), "kind": kind,
                           "errno": rng.choice(["EIO", "ENOSPC", "EACCES", "EMFILE"])})
    return {"conc": conc, "share": share, "calls": calls, "faults": faults, "gap": rng.choice([1, 3, 10, 40, -1, -1]),
            "buf": rng.choice([None, 8, 32, 200]), "by": rng.sample(BYSTANDERS, rng.randint(0, len(BYSTANDERS)))}


def _kw(c):
    if c["algo"] == "SLIM":
        return dict(return_tids=c["tids"], lexicographic_order=c["lex"], singletons=c["singletons"],
                    drop_null_usage=c["drop"])
    return dict(return_tids=c["tids"], lexicographic_order=c["lex"], max_length=c["max_length"])


def expected(c, df):
    out = []
    for _, r in df.iterrows():
        items = [str(i) for i in r["itemset"]]
        tids = [str(t) for t in r["tids"]] if c["tids"] else None
        n = len(r["tids"]) if (c["algo"] == "SLIM" and c["tids"]) else int(r["usage"] if c["algo"] == "SLIM"
                                                                         else r["support"])
        out.append((n, items if c["lex"] else sorted(items), tids))
    return out


def parse(c, text):
    """Rows of a result file, or None if it is malformed."""
    if text and not text.endswith("\n"):
        return None
    lines = text.split("\n")[:-1]
    out = []
    i = 0
    while i < len(lines):
        m = re.match(r"^\((\d+)\) ?(.*)$", lines[i])
        if not m:
            return None
        items = m.group(2).split()
        tids = None
        i += 1
        if c["tids"]:
            if i < len(lines) and not lines[i].startswith("("):
                tids = lines[i].split()
                i += 1
            else:
                tids = []
        out.append((int(m.group(1)), items if c["lex"] else sorted(items), tids))
    return out


def _prepare(p, sc):
    for b in p["by"]:
        f = os.path.join(sc.cwd, b)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with R.open(f, "w") as fh:
            fh.write("user data %s\n" % b)
    os.makedirs(os.path.join(sc.cwd, "sub"), exist_ok=True)
    for c in p["calls"]:
        if c["prev"]:
            with R.open(_path(c, sc), "w") as fh:
                fh.write("(1) old\n" * (1 if c["prev"] == "short" else 300))


def _path(c, sc):
    return os.path.join(sc.data, "abs.txt") if c["out"] == "ABS" else os.path.join(sc.cwd, c["out"])


def _fit(ctx, c):
    est = SLIM() if c["algo"] == "SLIM" else CLS[c["algo"]](min_supp=c["min_supp"])
    rows = gen.typed(c["D"], c["itype"])
    with Sim(clock=Clock()):
        ctx.must("exception", "%s.fit" % c["algo"], est.fit, rows)
        df = ctx.must("exception", "%s.transform" % c["algo"], est.transform, rows, **_kw(c))
    return est, rows, expected(c, df)


def _diff(before, after, allowed, only_existing=False):
    bad = []
    for k in set(before) | set(after):
        if k in allowed:
            continue
        if only_existing and k not in before:
            continue
        if before.get(k) != after.get(k):
            bad.append("%s %s" % ("created" if k not in before else "deleted" if k not in after else "changed", k))
    return sorted(bad)


def _verify(ctx, c, sc, exp, what):
    try:
        with R.open(_path(c, sc), encoding="utf-8") as f:
            text = f.read()
    except OSError:
        ctx.fail("missing-file", "%s returned but wrote no file" % what)
    got = parse(c, text)
    ctx.check(got == exp, "wrong-content", lambda: "%s returned but its file differs from the in-memory result: "
              "file %r, expected %r" % (what, (got or text)[:6], exp[:6]))
    ctx.count("reach:file-verified")


def execute(p, ctx):
    ch = Chooser(p["sched_seed"], p["choices"])
    ctx.choices_rec = ch.rec
    if not p["calls"] or any(not c["D"] for c in p["calls"]):
        ctx.nontrivial = False
        return
    if p["conc"]:
        return _concurrent(p, ctx, ch)
    keys = []
    prepared = [_fit(ctx, c) for c in p["calls"]]
    # dry run: number of disk operations of each call without faults
    counts = []
    with Scratch() as sc:
        _prepare(p, sc)
        ch0 = Chooser(p["sched_seed"], p["choices"])
        for c, (est, rows, exp) in zip(p["calls"], prepared):
            disk = Disk(sc.root, bufsize=p["buf"])
            o, js = _call(ctx, c, est, rows, sc, disk, ch0, [])
            counts.append(disk.n)
            if not o.ok:
                ctx.fail("exception", "%s.transform(out=) raised %s: %s without any fault" % (
                    c["algo"], type(o.exc).__name__, str(o.exc)[:300]))
            _verify(ctx, c, sc, exp, "%s.transform(out=%r)" % (c["algo"], c["out"]))
    with Scratch() as sc:
        _prepare(p, sc)
        for k, (c, (est, rows, exp)) in enumerate(zip(p["calls"], prepared)):
            what = "call %d: %s.transform(out=%r)" % (k, c["algo"], c["out"])
            faults = [{"at": int(f["frac"] * counts[k]), "kind": f["kind"], "errno": f["errno"]}
                      for f in p["faults"] if f["call"] == k]
            for attempt in ((0, 1) if (faults or c["jobs"]["faults"]) else (0,)):
                before = snapshot(sc.root)
                disk = Disk(sc.root, bufsize=p["buf"])
                if attempt == 0:
                    disk.arm(faults)
                    for f in faults:
                        ctx.count("planned:disk-" + f["kind"])
                    for f in c["jobs"]["faults"]:
                        ctx.count("planned:" + f["kind"])
                crashed = False
                try:
                    o, js = _call(ctx, c, est, rows, sc, disk, ch, c["jobs"]["faults"] if attempt == 0 else [])
                except SimCrash:
                    crashed = True
                disk.revive()
                for f, op in disk.fired:
                    ctx.count("fault:disk-%s" % f)
                if not crashed:
                    for f in js.fired:
                        ctx.count("fault:" + f)
                after = snapshot(sc.root)
                allowed = {os.path.relpath(_path(c, sc), sc.root)}
                keys.append(repr(disk.log))
                ctx.event(k, attempt, crashed, disk.fired, len(disk.log), None if crashed else repr(o)[:200])
                if crashed:
                    d = _diff(before, after, allowed, only_existing=True)
                    ctx.check(not d, "collateral", lambda: "%s: a crash during the call %s" % (what, d))
                    # a restarted process starts with the files the crash left
                    prepared[k] = (est, rows, exp) = _fit(ctx, c)
                    continue
                if not disk.cleanup_faulted:
                    d = _diff(before, after, allowed)
                    ctx.check(not d, "collateral", lambda: "%s %s: %s" % (
                        what, "returned" if o.ok else "raised %s" % type(o.exc).__name__, d))
                else:
                    ctx.count("reach:cleanup-faulted")
                    d = _diff(before, after, allowed, only_existing=True)
                    ctx.check(not d, "collateral", lambda: "%s: %s" % (what, d))
                if o.ok:
                    _verify(ctx, c, sc, exp, what + (" (after faults %s)" % (disk.fired + js.fired)
                                                     if disk.fired or js.fired else ""))
                else:
                    ctx.check(disk.fired or js.fired, "exception", lambda: "%s raised %s: %s although no fault was "
                              "injected into it%s" % (what, type(o.exc).__name__, str(o.exc)[:300],
                                                      " (a repeat after a failure)" if attempt else ""))
    ctx.sched_key = str(hash(tuple(keys)))
    ctx.sched_key = "|".join(keys)[-4000:]


def _call(ctx, c, est, rows, sc, disk, ch, jfaults):
    j = c["jobs"]
    mode = j["mode"]
    if mode == "procs":
        mode = "isolated" if disk.faults else "procs"
    js = JobSim(ch, mode=mode, batch=j["batch"], faults=jfaults, mean_gap=j["gap"], workers=3)
    kw = dict(_kw(c), out=_path(c, sc) if c["out"] == "ABS" else c["out"])
    if c["algo"] != "SLIM":
        est.set_params(n_jobs=j["n_jobs"])
    with Sim(clock=Clock(), disk=disk, jobs=js), user_backend(mode):
        o = ctx.call(est.transform, rows, **kw)
    return o, js


def _concurrent(p, ctx, ch):
    prepared = [_fit(ctx, c) for c in p["calls"]]
    if p.get("share"):
        shared = prepared[0][0]
        prepared = [(shared, rows, exp) for c, (_, rows, exp) in zip(p["calls"], prepared)
                    if [c[k] for k in ("algo", "D", "itype", "min_supp")] ==
                    [p["calls"][0][k] for k in ("algo", "D", "itype", "min_supp")]]
        p = dict(p, calls=p["calls"][:len(prepared)])
        ctx.count("reach:shared-estimator")
    with Scratch() as sc:
        _prepare(p, sc)
        before = snapshot(sc.root)
        disk = Disk(sc.root, bufsize=p["buf"])
        sch = ThreadSched(ch, mean_gap=p["gap"])
        sch.focus = ("lcm.py", "slim.py")
        fns = [lambda c=c, e=e: e[0].transform(e[1], **dict(_kw(c), out=c["out"]))
               for c, e in zip(p["calls"], prepared)]
        with Sim(clock=Clock(), disk=disk, sched=sch):
            outs = sch.run(fns)
        after = snapshot(sc.root)
        ctx.sched_key = repr(sch.switches)[:4000]
        ctx.sim_time += sch.steps * 1e-6
        ctx.count("reach:concurrent-run")
        ctx.count("fault:thread-switch", len(sch.switches))
        ctx.event(sch.switches, [o[0] for o in outs])
        allowed = {os.path.relpath(_path(c, sc), sc.root) for c in p["calls"]}
        for k, (c, (st, v)) in enumerate(zip(p["calls"], outs)):
            if st != "ok":
                if not isinstance(v, Exception):
                    raise v
                ctx.fail("concurrent", "call %d of %d concurrent transform(out=) calls (%s) raised %s: %s" % (
                    k, len(outs), c["algo"], type(v).__name__, str(v)[:300]))
        for k, (c, e) in enumerate(zip(p["calls"], prepared)):
            _verify(ctx, c, sc, e[2], "concurrent call %d (%s)" % (k, c["algo"]))
        d = _diff(before, after, allowed)
        ctx.check(not d, "collateral", lambda: "concurrent calls: %s" % d)

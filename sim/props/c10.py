"""C10: export/import of periodic patterns on a faulty disk, with crashes and restarts."""
import json
import os
import warnings

from skmine.periodic import PeriodicPatternMiner

from .. import gen
from ..seams import Clock, Disk, R, Scratch, Sim, SimCrash
from .c09 import _int

ID = "C10"
QUICK, THOROUGH = 1500, 50000
RULE = "a run counts if at least one import was attempted; distinct by digest of the disk operations and the answers"
SHRINK = ["ops", "logs.0.occ", "logs.1.occ"]
SCHED_MEASURE = "distinct (operation, disk operation log, fault) histories"
REAL = ["skmine.periodic from /repo", "json, io text and buffer layers"]
STUB = ["file system calls (scratch directory, injected errors, short and torn writes, crash points)", "clock"]
ASSUMES = ["crash = process death: data handed to write() survives, user-space buffers do not",
           "exporter and importer have the same parameters", "the patterns are not edited between export and import"]

FILES = ["patterns.json", "sub/p.json", "other.json"]


def plan(rng, tier):
    logs = [gen.log(rng, size=1.2, long_rate=0.03) for _ in range(rng.choice([1, 2, 2, 3]))]
    ops = [{"op": "fit", "m": 0, "log": 0}]

    def fault():
        if rng.random() > 0.45:
            return None
        return {"at": rng.randrange(5), "kind": rng.choice(["error", "error", "short", "full", "crash", "crash", "torn", "torn"]),
                "errno": rng.choice(["EIO", "ENOSPC", "EACCES", "EMFILE"]),
                "frac": rng.choice([0.0, 0.1, 0.5, 0.9, 0.99, 1.0])}
    for _ in range(rng.randint(3, 12)):
        r = rng.random()
        m, f = rng.randrange(3), rng.choice([0, 0, 0, 1, 2])
        if r < 0.22:
            ops.append({"op": "fit", "m": m, "log": rng.randrange(len(logs))})
        elif r < 0.55:
            ops.append({"op": "export", "m": m, "f": f, "fault": fault()})
        elif r < 0.87:
            ops.append({"op": "import", "m": m, "f": f, "fault": fault() if rng.random() < 0.5 else None})
        elif r < 0.93:
            ops.append({"op": "damage", "f": f, "how": rng.choice(["cut", "empty", "garbage", "key", "badpat", "list"]),
                        "x": rng.random()})
        else:
            ops.append({"op": "table", "m": m})
    if rng.random() < 0.12:  # a long export, overwritten by one that is a little shorter
        big = gen.log(rng, max_ev=4, size=2.5, long_rate=0.15)
        keep = rng.choice([0.6, 0.9, 0.97])
        small = dict(big, occ=[o for o in big["occ"] if rng.random() < keep])
        if len(small["occ"]) > 1:
            logs += [big, small]
            n = len(logs)
            ops = ops[:4] + [{"op": "fit", "m": 0, "log": n - 2}, {"op": "export", "m": 0, "f": 0, "fault": None},
                             {"op": "fit", "m": 0, "log": n - 1}, {"op": "export", "m": 0, "f": 0, "fault": None},
                             {"op": "import", "m": 2, "f": 0, "fault": None}]
    # always end with a clean export and import
    ops += [{"op": "export", "m": 0, "f": 0, "fault": None}, {"op": "import", "m": 1, "f": 0, "fault": None},
            {"op": "export", "m": 1, "f": 1, "fault": None}, {"op": "import", "m": 2, "f": 1, "fault": None}]
    return {"logs": logs, "ops": ops, "complex": rng.random() < 0.7, "auto": rng.random() < 0.75,
            "buf": rng.choice([None, 16, 64])}


def observe(m):
    """Everything the miner answers, as plain values; None if it has no model."""
    if not hasattr(m, "miners_"):
        return None
    t = m.transform(None, dE_sum=False, chronological_order=False)
    rows = []
    for i in t.index:
        rows.append((int(i), _int(t.at[i, "t0"]), t.at[i, "pattern"], int(t.at[i, "repetition_major"]),
                     _int(t.at[i, "period_major"]), tuple(_int(e) for e in t.at[i, "E"])))
    ts = m.transform(None)
    order = [int(i) for i in ts.index]
    rec = sorted(gen.occ_list(m.reconstruct()))
    res = sorted(gen.occ_list(m.get_residuals()))
    one = [gen.occ_list(m.reconstruct([i], sort="construction_order")) for i in range(len(rows))]
    dt = str(m.reconstruct()["time"].dtype)
    return (tuple(rows), tuple(order), tuple(rec), tuple(res), tuple(map(tuple, one)), dt)


def execute(p, ctx):
    warnings.simplefilter("ignore")
    if not p["logs"] or any(len(lg["occ"]) < 2 for lg in p["logs"]):
        ctx.nontrivial = False
        return
    new = lambda: PeriodicPatternMiner(complex=p["complex"], auto_time_scale=p["auto"])
    miners = [new() for _ in range(3)]
    series = [gen.log_series(lg)[0] for lg in p["logs"]]
    obs = [None] * 3      # what each miner answers
    files = {}            # file -> list of states an import may give (None = must raise)
    content = {}          # file -> parsed JSON of a complete export
    imports = 0
    keys = []
    with Scratch() as sc:
        os.makedirs(os.path.join(sc.cwd, "sub"))
        disk = Disk(sc.root, bufsize=p["buf"])

        def look(i, what):
            with Sim(clock=Clock()):
                o = ctx.call(observe, miners[i])
            if not o.ok:
                ctx.fail("exception", "%s: miner %d cannot answer any more: %s: %s" % (
                    what, i, type(o.exc).__name__, str(o.exc)[:300]))
            return o.value

        def guarded(fn, fault):
            disk.arm([dict(fault, at=disk.n + fault["at"])] if fault else [])
            n0, f0 = len(disk.log), len(disk.fired)
            try:
                with Sim(clock=Clock(), disk=disk):
                    st = ctx.call(fn)
                st = ("ok", st.value) if st.ok else ("exc", st.exc)
            except SimCrash:
                st = ("crash", None)
            if disk.dead:
                st = ("crash", None)
            disk.arm([])
            disk.full = False
            fired = disk.fired[f0:]
            for k, _ in fired:
                ctx.count("fault:" + k)
            if fault:
                ctx.count("planned:" + fault["kind"])
            keys.append((tuple(k for k, _ in disk.log[n0:]), tuple(fired)))
            return st, fired

        for k, op in enumerate(p["ops"]):
            what = "op %d %s" % (k, {x: y for x, y in op.items() if x not in ("x",)})
            if op["op"] == "fit":
                with Sim(clock=Clock()):
                    ctx.must("exception", what, miners[op["m"]].fit, series[op["log"] % len(series)])
                obs[op["m"]] = look(op["m"], what)
            elif op["op"] == "table":
                now = look(op["m"], what)
                ctx.check(now == obs[op["m"]], "model-changed", lambda: "%s: miner %d answers differently than before" % (
                    what, op["m"]))
            elif op["op"] == "damage":
                f = FILES[op["f"]]
                path = os.path.join(sc.cwd, f)
                if not os.path.exists(path):
                    continue
                with R.open(path) as fh:
                    text = fh.read()
                try:
                    js = json.loads(text)
                except ValueError:
                    js = None
                if op["how"] == "cut":
                    text = text[:int(op["x"] * (len(text) - 1))]
                elif op["how"] == "empty":
                    text = ""
                elif op["how"] == "garbage":
                    text = "x" + text
                elif op["how"] == "list":
                    text = "[1, 2]"
                elif js is None or not isinstance(js, dict):
                    continue
                elif op["how"] == "key":
                    ks = sorted(js)
                    js.pop(ks[int(op["x"] * len(ks))])
                    text = json.dumps(js)
                else:
                    if not js.get("patterns"):
                        continue
                    js["patterns"][-1].pop(["t0", "E", "next_id"][int(op["x"] * 3)], None)
                    text = json.dumps(js)
                with R.open(path, "w") as fh:
                    fh.write(text)
                # a reader may supply defaults for what is missing; truncated or foreign files must be refused
                files[f] = [None, "any"] if op["how"] in ("key", "badpat") else [None]
                content.pop(f, None)
                ctx.count("fault:damaged-file")
            elif op["op"] == "export":
                f = FILES[op["f"]]
                m = miners[op["m"]]
                if obs[op["m"]] is None:
                    continue
                before = obs[op["m"]]
                (st, v), fired = guarded(lambda: m.export_patterns(f), op["fault"])
                ctx.event(k, "export", st, fired)
                if st == "crash":
                    files[f] = list(dict.fromkeys(files.get(f, [None]) + [before, None]))
                    content.pop(f, None)
                    disk.revive()
                    ctx.count("reach:crash-in-export")
                    miners = [new() for _ in range(3)]
                    obs = [None] * 3
                    continue
                if fired and any(o in ("open-w", "write", "close") for _, o in fired):
                    if st == "ok":
                        # fine only if the file is complete all the same
                        ctx.count("reach:ok-despite-fault")
                if st == "exc":
                    if not fired:
                        ctx.fail("exception", "%s raised %s: %s without a fault" % (what, type(v).__name__, str(v)[:300]))
                    files[f] = list(dict.fromkeys(files.get(f, [None]) + [before, None]))
                    content.pop(f, None)
                else:
                    files[f] = [before]
                    with R.open(os.path.join(sc.cwd, f)) as fh:
                        text = fh.read()
                    try:
                        content[f] = json.loads(text)
                    except ValueError as e:
                        ctx.fail("incomplete-export", "%s returned but the file is not valid JSON: %s" % (what, e))
                now = look(op["m"], what)
                ctx.check(now == before, "export-changes-model", lambda: "%s: the exporter answers differently "
                          "afterwards: %r" % (what, diff(before, now)))
            else:
                f = FILES[op["f"]]
                m = miners[op["m"]]
                before = obs[op["m"]]
                (st, v), fired = guarded(lambda: m.import_patterns(f), op["fault"])
                ctx.event(k, "import", st, fired)
                imports += 1
                if st == "crash":
                    disk.revive()
                    miners = [new() for _ in range(3)]
                    obs = [None] * 3
                    continue
                now = look(op["m"], what)
                allowed = files.get(f, [None])
                if st == "exc":
                    ctx.check(now == before, "import-not-atomic", lambda: "%s raised %s but changed the miner: %r" % (
                        what, type(v).__name__, diff(before, now)))
                    ctx.check(fired or None in allowed, "import-fails", lambda: "%s raised %s: %s although the export had "
                              "returned" % (what, type(v).__name__, str(v)[:200]))
                    ctx.count("reach:import-raised")
                else:
                    good = [a for a in allowed if a is not None]
                    ctx.check("any" in good or now in good, "import-differs", lambda: "%s: the importer answers differently from the "
                              "exporter: %r" % (what, diff(good[-1] if good else None, now)))
                    ctx.count("reach:imported")
                    if len(allowed) > 1 or None in allowed:
                        ctx.count("reach:imported-after-failed-export")
                    # exporting again gives an equivalent file
                    if f in content:
                        (st2, v2), fired2 = guarded(lambda: m.export_patterns("again.json"), None)
                        if st2 != "ok":
                            ctx.fail("exception", "%s: exporting after the import raised %s: %s" % (
                                what, type(v2).__name__, str(v2)[:300]))
                        with R.open(os.path.join(sc.cwd, "again.json")) as fh:
                            again = json.loads(fh.read())
                        ctx.check(canon(again) == canon(content[f]), "re-export", lambda: "%s: exporting again gives another "
                                  "file: %r" % (what, diff(canon(content[f]), canon(again))))
                obs[op["m"]] = now
    ctx.sched_key = repr(keys)
    ctx.event(keys, [o and (len(o[0]), len(o[2])) for o in obs])
    ctx.nontrivial = imports > 0


def canon(js):
    """The data a file stands for, whatever the order of keys."""
    return json.dumps(js, sort_keys=True)


def diff(a, b):
    if a is None or b is None or isinstance(a, str):
        return (str(a)[:200], str(b)[:200])
    names = ("table", "order", "reconstruction", "residuals", "patterns", "dtype")
    return [(n, str(x)[:160], str(y)[:160]) for n, x, y in zip(names, a, b) if x != y][:2]

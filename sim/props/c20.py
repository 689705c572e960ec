"""C20: local data files on a faulty disk, with edits between loads and concurrent loads."""
import os

from skmine.datasets import fimi, periodic
from skmine.graph.graphmdl.utils import get_graph_from_file

from .. import gen
from ..choose import Chooser
from ..sched import ThreadSched, interrupt
from ..seams import Clock, Disk, R, Scratch, Sim, snapshot

ID = "C20"
QUICK, THOROUGH = 5000, 120000
RULE = "a run counts if at least one load returned records; distinct by digest of the disk operations and the results"
SHRINK = ["ops", "files.0.rows", "files.1.rows", "files.2.rows"]
SCHED_MEASURE = "distinct (disk operation log, faults, thread switches) histories"
REAL = ["skmine.datasets.fimi.fetch_file, skmine.datasets.periodic.fetch_file and the graph file reader from /repo",
        "pandas' csv reader, io text and buffer layers"]
STUB = ["file system calls (scratch directory, injected read errors, short reads)", "thread scheduler", "clock"]
ASSUMES = ["files are well formed, UTF-8, without blank lines; events alone on their line and labels are not empty",
           "integer timestamps do not look like dates"]
NAMES = ["a.dat", "sub/b.dat", "c.tar.dat"]


def make_file(rng, k):
    kind = rng.choice(["fimi", "fimi", "log", "log", "graph"])
    f = {"kind": kind, "eol": rng.choice(["\n", "\n", "\r\n"]), "last": rng.random() < 0.7, "name": k}
    n = rng.choice([1, 2, 3, 6, 12, 30]) if rng.random() < 0.97 else rng.choice([2500, 2500, 9000])
    if kind == "fimi":
        f["ints"] = rng.random() < 0.6
        f["sep"] = rng.choice([" ", " ", ",", ";", "\t"])
        pool = [str(rng.randrange(-3, 3000)) for _ in range(12)] if f["ints"] else gen.WORDS[:8] + ["\u00e9t\u00e9", "1", "x=2", "a#b", "it's"] + [" two words"] * (f["sep"] in ",;")
        f["rows"] = [[rng.choice(pool) for _ in range(rng.randint(1, 6))] for _ in range(n)]
        if not f["ints"] and f["sep"] in ",;" and rng.random() < 0.3:  # empty fields
            r = rng.choice(f["rows"])
            r.insert(rng.randrange(len(r)), "")
    elif kind == "log":
        f["sep"] = rng.choice([",", ",", ";", "\t"])
        f["index"] = rng.choice(["int", "date", "none"])
        t = rng.choice([0, 5, 100])
        rows = []
        for _ in range(n):
            rows.append([t, rng.choice(["coffee", "bed", "wake up", "\u00e9t\u00e9", "r2", "a#b", "#1", "it's", "x  y", "NA", "None", "null", "nan"])])
            t += rng.choice([0, 1, 2, 7])
        if n > 800:
            rows = [[1000000 + i, e] for i, (_, e) in enumerate(rows)]
        else:
            rows = [[min(t, 999), e] for t, e in rows]
        if f["index"] == "int" and n <= 800 and rng.random() < 0.3:
            base = rng.choice([9007199254740993, 1600000000000000001, -700])
            rows = [[base + t, e] for t, e in rows]
        if f["index"] != "none" and rng.random() < 0.2:
            rows[rng.randrange(len(rows))][1] = ""
        f["rows"] = rows
    else:
        m = rng.randint(2, 6)
        f["rows"] = [["v", i, rng.choice("xyz")] for i in range(m)]
        seen = set()
        for _ in range(min(n, 30)):
            a, b = rng.randrange(m), rng.randrange(m)
            if a != b and (a, b) not in seen:
                seen.add((a, b))
                f["rows"].append(["e", a, b, rng.choice("ab")])
    return f


def plan(rng, tier):
    files = [make_file(rng, k) for k in range(rng.choice([1, 2, 2, 3]))]
    ops = []
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        k = rng.randrange(len(files))
        if r < 0.55:
            o = {"op": "load", "f": k}
            if rng.random() < 0.5:
                o["fault"] = {"at": rng.randrange(8), "errno": rng.choice(["EIO", "EACCES", "EMFILE", "ESTALE"])}
            elif rng.random() < 0.2:
                o["intr"] = rng.randint(1, 30)
            o["spoil"] = rng.random() < 0.4
            ops.append(o)
        elif r < 0.8:
            new = make_file(rng, k)
            ops.append({"op": "edit", "f": k, "how": rng.choice(["append", "drop", "swap", "replace", "rename"]), "new": new})
        else:
            if rng.random() < 0.25:
                ops.append({"op": "bad", "f": k, "at": rng.randrange(1 << 12), "word": rng.choice(["x7", "7x", "?", "1e", "0x1"])})
                continue
            ops.append({"op": "conc", "fs": [rng.randrange(len(files)) for _ in range(rng.choice([2, 2, 3]))]})
    ops.append({"op": "load", "f": 0, "spoil": False})
    return {"files": files, "ops": ops, "cap": rng.choice([None, 1, 7, 50, 400]), "gap": rng.choice([1, 3, 8, -1, -1])}


def date(t):
    return "2021-03-%02d %02d:%02d:00" % (1 + t // 1440 % 28, t // 60 % 24, t % 60)


def text(f):
    if f["kind"] == "fimi":
        lines = [f["sep"].join(r) for r in f["rows"]]
    elif f["kind"] == "log":
        lines = [e if f["index"] == "none" else "%s%s%s" % (date(t) if f["index"] == "date" else t, f["sep"], e)
                 for t, e in f["rows"]]
    else:
        lines = ["# graph", "# vertices edges", "# ---"]
        lines += ["v %d vlabel %s" % (r[1], r[2]) if r[0] == "v" else "e %d %d %s" % (r[1], r[2], r[3]) for r in f["rows"]]
    s = f["eol"].join(lines)
    return s + (f["eol"] if f["last"] else "")


def expect(f):
    if f["kind"] == "fimi":
        return [[int(x) if f["ints"] else x for x in r] for r in f["rows"]]
    if f["kind"] == "log":
        return [(i if f["index"] == "none" else date(t) if f["index"] == "date" else t, e) for i, (t, e) in enumerate(f["rows"])]
    return (sorted((r[1] + 1, r[2]) for r in f["rows"] if r[0] == "v"),
            sorted((r[1] + 1, r[2] + 1, r[3]) for r in f["rows"] if r[0] == "e"))


def load(f, path):
    if f["kind"] == "fimi":
        return fimi.fetch_file(path, separator=f["sep"], int_values=f["ints"])
    if f["kind"] == "log":
        return periodic.fetch_file(path, separator=f["sep"])
    return get_graph_from_file(path)


def seen(f, v):
    if f["kind"] == "fimi":
        return [list(r) for r in v]
    if f["kind"] == "log":
        return [(str(t) if f["index"] == "date" else int(t), str(e)) for t, e in zip(v.index, v)]
    return (sorted((n, d.get("label")) for n, d in v.nodes(data=True)), sorted((a, b, d.get("label")) for a, b, d in v.edges(data=True)))


def spoil(f, v):
    """The caller does as it likes with what it got."""
    if f["kind"] == "fimi":
        for r in v:
            r.append("mine")
        v.name = "mine"
    elif f["kind"] == "log":
        v.iloc[0] = "mine"
        v.drop(v.index[-1:], inplace=True)
    else:
        v.add_edge(1, 77, label="mine")


def broken(f):
    """A graph file whose edges name vertices that it lacks (left by minimising)."""
    vs = {r[1] for r in f["rows"] if r[0] == "v"} if f["kind"] == "graph" else ()
    return f["kind"] == "graph" and any(r[0] == "e" and not {r[1], r[2]} <= vs for r in f["rows"])


def execute(p, ctx):
    import warnings
    warnings.simplefilter("ignore")
    files = [dict(f) for f in p["files"]]
    if any(not f["rows"] or broken(f) for f in files + [op["new"] for op in p["ops"] if op["op"] == "edit"]):
        ctx.nontrivial = False
        return
    ch = Chooser(p["sched_seed"], p["choices"])
    ctx.choices_rec = ch.rec
    keys, loaded = [], 0
    with Scratch() as sc:
        R.os["mkdir"](os.path.join(sc.cwd, "sub"))

        def put(f):
            with R.open(os.path.join(sc.cwd, NAMES[f["name"]]), "w", encoding="utf-8", newline="") as fh:
                fh.write(text(f))
        for f in files:
            put(f)
        for k, op in enumerate(p["ops"]):
            if op["op"] == "edit":
                f = files[op["f"]]
                how = op["how"]
                new = op["new"]
                if how in ("append", "drop", "swap") and (new["kind"] != f["kind"] or f["kind"] == "graph"):
                    how = "replace"
                if how == "append":
                    f["rows"] = f["rows"] + [list(f["rows"][-1])]
                elif how == "drop":
                    f["rows"] = f["rows"][:-1] or f["rows"]
                elif how == "swap":  # same size, same number of lines
                    f["rows"] = f["rows"][::-1]
                else:
                    files[op["f"]] = f = dict(new)
                put(f)
                ctx.count("reach:edited")
                continue
            if op["op"] == "bad":  # one record that is no number where numbers are promised
                f = files[op["f"]]
                if f["kind"] == "graph" or f["kind"] == "fimi" and not f["ints"] or f["kind"] == "log" and f["index"] != "int":
                    continue
                rows = [list(r) for r in f["rows"]]
                r = rows[op["at"] % len(rows)]
                r[0 if f["kind"] == "log" else op["at"] % len(r)] = op["word"]
                put(dict(f, rows=rows))
                with Sim(clock=Clock(), disk=Disk(sc.root)):
                    o = ctx.call(load, f, NAMES[f["name"]])
                put(f)
                ctx.count("fault:malformed-record")
                ctx.check(not o.ok, "malformed-accepted", lambda: "step %d: load of a %s file with %r in place of a number returned %r" % (
                    k, f["kind"], op["word"], str(o.value)[:200]))
                continue
            disk = Disk(sc.root)
            disk.readcap = p["cap"]
            before = snapshot(sc.root)
            if op["op"] == "conc":
                fs = [files[i] for i in op["fs"]]
                sch = ThreadSched(ch, mean_gap=p["gap"])
                with Sim(clock=Clock(), disk=disk, sched=sch):
                    outs = sch.run([lambda f=f: load(f, NAMES[f["name"]]) for f in fs])
                ctx.count("fault:thread-switch", len(sch.switches))
                keys.append(repr(sch.switches))
                for f, (st, v) in zip(fs, outs):
                    if st != "ok":
                        if not isinstance(v, Exception):
                            raise v
                        ctx.fail("exception", "step %d: concurrent load of a %s file raised %s: %s" % (
                            k, f["kind"], type(v).__name__, str(v)[:200]))
                    ctx.check(seen(f, v) == expect(f), "wrong-records", lambda: "step %d: a concurrent load gave %r, the file "
                              "holds %r" % (k, str(seen(f, v))[:200], str(expect(f))[:200]))
                    loaded += 1
                ctx.check(snapshot(sc.root) == before, "file-changed", "step %d: concurrent loads changed files" % k)
                ctx.event(k, len(sch.switches))
                continue
            f = files[op["f"]]
            what = "step %d: load of a %s file" % (k, f["kind"])
            for attempt in (0, 1):
                fault = op.get("fault") if attempt == 0 else None
                disk = Disk(sc.root)
                disk.readcap = p["cap"]
                if fault:
                    disk.arm([{"at": fault["at"], "kind": "error", "errno": fault["errno"]}])
                    ctx.count("planned:read-error")
                hit = None
                with Sim(clock=Clock(), disk=disk):
                    if attempt == 0 and op.get("intr"):
                        ctx.count("planned:interrupt")
                        hit, (st, v) = interrupt(lambda: load(f, NAMES[f["name"]]), op["intr"], KeyboardInterrupt("simulated"))
                        if st == "exc" and not hit and not isinstance(v, Exception):
                            raise v
                    else:
                        o = ctx.call(load, f, NAMES[f["name"]])
                        st, v = ("ok", o.value) if o.ok else ("exc", o.exc)
                keys.append(repr(disk.log))
                ctx.event(k, attempt, disk.fired, st, len(disk.log))
                ctx.check(snapshot(sc.root) == before, "file-changed", "%s changed files" % what)
                if disk.fired or hit:
                    ctx.count("fault:read-error" if disk.fired else "fault:interrupt")
                    ctx.check(st == "exc" or seen(f, v) == expect(f), "silent-failure", lambda: "%s returned %r although %s" % (
                        what, str(seen(f, v))[:200], disk.fired or "it was interrupted"))
                    continue
                if st != "ok":
                    ctx.fail("exception", "%s raised %s: %s%s" % (what, type(v).__name__, str(v)[:200],
                                                                 " after an earlier failed load" if attempt else ""))
                ctx.check(seen(f, v) == expect(f), "wrong-records", lambda: "%s gave %r, the file holds %r" % (
                    what, str(seen(f, v))[:200], str(expect(f))[:200]))
                loaded += 1
                if op["spoil"]:
                    spoil(f, v)
                break
    ctx.sched_key = str(keys)
    ctx.nontrivial = loaded > 0

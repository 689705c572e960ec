"""C12: the dataset cache under network faults, disk faults, crashes, interrupts and concurrent fetches."""
import contextlib
import datetime
import gzip
import io
import json
import os
import random
import warnings
import zipfile

from skmine.datasets import fimi, periodic

from ..choose import Chooser
from ..net import Net
from ..sched import ThreadSched
from ..seams import Clock, Disk, Proc, R, Scratch, Sim, SimCrash

ID = "C12"
QUICK, THOROUGH = 8000, 100000
RULE = "a run counts if at least one fetch went to the network; distinct by the interleaving, operation log and fault trace"
SHRINK = ["groups", "content.0.rows", "content.1.rows"]
SCHED_MEASURE = "distinct (thread switch, disk operation, network and fault) histories"
REAL = ["skmine.datasets from /repo", "wget, urllib.request.urlretrieve, http.client response parsing, pandas csv reader and "
        "writer, gzip, tempfile, shutil", "sh, unzip, grep (UbiqLog)"]
STUB = ["urllib.request.urlopen (scripted origin and byte stream)", "file system calls (scratch directory, injected "
        "errors, short and torn writes, full disk, crash points, EXDEV)", "processes (simulated threads sharing the data "
        "folder)", "the wget program (copies from the scripted origin)"]
ASSUMES = ["crash = process death: data handed to write() survives, user-space buffers do not",
           "the origin's content does not change", "a fetch may fail when a fault hits it or a concurrent one"]

FIMI = {"chess": fimi.fetch_chess, "connect": fimi.fetch_connect, "mushroom": fimi.fetch_mushroom,
        "pumsb": fimi.fetch_pumsb, "pumsb_star": fimi.fetch_pumsb_star, "kosarak": fimi.fetch_kosarak,
        "retail": fimi.fetch_retail, "accidents": fimi.fetch_accidents}
CGI = {"iris.D19.N150.C3.num.gz": fimi.fetch_iris, "breast.D20.N699.C2.num": fimi.fetch_breast,
       "ticTacToe.D29.N958.C2.num": fimi.fetch_tictactoe}
NET = ["refuse", "dns", "http", "trunc", "trunc", "trunc", "reset", "stall", "interrupt", "crash"]


def plan(rng, tier):
    content = []
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        if r < 0.30:
            c = {"kind": "fimi", "ds": rng.choice(sorted(FIMI))}
        elif r < 0.50:
            c = {"kind": "cgi", "ds": rng.choice(sorted(CGI))}
        elif r < 0.58:
            c = {"kind": "any", "ds": rng.choice(["toy.dat", "toy.dat", "a b.dat", "x.y.txt", "xtoy.dat", "toy.dat.txt"]), "cgi": rng.random() < 0.3}
        elif r < 0.76:
            c = {"kind": "health", "ds": rng.choice(["health_app.csv", "h.csv"])}
        elif r < 0.92:
            c = {"kind": "tv", "ds": rng.choice(["canadian_tv.txt", "tv.txt"])}
        else:
            c = {"kind": "ubiq", "ds": "ubiq"}
        if any(d["ds"] == c["ds"] or d["kind"] == c["kind"] in ("health", "tv") for d in content):
            continue
        n = rng.choice([1, 2, 3, 5, 8, 20, 60, 200]) if rng.random() < 0.985 else rng.choice([2100, 5200])
        if c["kind"] in ("fimi", "cgi", "any"):
            c["rows"] = [[rng.choice([1, 2])] + [rng.randrange(1, 120) for _ in range(rng.randint(1, 8))] for _ in range(n)]
            c["eol"] = rng.choice(["\n", " \n"])
        elif c["kind"] == "health":
            c["rows"] = [[rng.randrange(10 ** 6), rng.randrange(1000), rng.choice(["Step_LSC", "HiH_A", "x y", "Ext-1", "NA"])]
                         for _ in range(n)]
        elif c["kind"] == "tv":
            c["rows"] = [[rng.randrange(10 ** 6), rng.choice(["News", "Gags", "Une, deux", "D'accord", "None", "l'\u00e9t\u00e9"])]
                         for _ in range(n)]
        else:
            c["rows"] = [[rng.randrange(2), rng.randrange(3), rng.randrange(3), rng.randrange(5000), rng.choice([5, 30, 59, 60, 400])]
                         for _ in range(rng.choice([40, 80]))]
        c["tail"] = rng.random() < 0.8
        c["bad"] = c["kind"] == "ubiq" and rng.random() < 0.3
        content.append(c)

    def fetch(calm):
        f = {"c": rng.randrange(len(content)), "y": rng.random() < 0.3, "env": rng.random() < 0.4, "net": None, "disk": None,
             "intr": None, "sh": None}
        if calm:
            return f
        r = rng.random()
        if r < 0.35:
            f["net"] = {"kind": rng.choice(NET), "frac": rng.choice([0.0, 0.3, 0.6, 0.9, 1.0])}
        elif r < 0.80:
            f["disk"] = {"at": int(rng.choice([rng.randrange(12), rng.randrange(60)])),
                         "kind": rng.choice(["error", "error", "short", "full", "full", "crash", "crash", "crash", "torn", "torn"]),
                         "errno": rng.choice(["EIO", "ENOSPC", "EACCES", "EMFILE"]),
                         "frac": rng.choice([0.0, 0.1, 0.5, 0.9, 1.0])}
        elif r < 0.9:
            f["intr"] = rng.choice([rng.randrange(1, 15), rng.randrange(1, 80)])
        if content[f["c"]]["kind"] == "ubiq" and rng.random() < 0.6:
            f["net"] = f["disk"] = None
            f["sh"] = {"tool": rng.choice(["wget", "unzip", "unzip", "grep"]), "how": rng.choice(["fail", "partial", "crash"])}
            f["sh"]["rc"] = rng.choice({"wget": [1, 3, 4, 8], "unzip": [2, 3, 9, 50, 51, 80], "grep": [2]}[f["sh"]["tool"]])
            if f["sh"]["tool"] == "unzip" and rng.random() < 0.25:
                f["sh"] = {"tool": "unzip", "how": "warn", "rc": 1}
        return f
    groups = []
    for _ in range(rng.randint(1, 4)):
        calm = rng.random() < 0.2
        groups.append({"f": [fetch(calm) for _ in range(rng.choice([1, 1, 2, 2, 3]))], "down": rng.random() < 0.12})
    how = rng.random() < 0.25
    if rng.random() < 0.5 and all(c["kind"] == "cgi" or c.get("cgi") for c in content):
        how = "close"  # no announced length: a truncation shows only in the compressed stream
    return {"content": content, "groups": groups, "home": rng.choice(["data", "data", "nested"]), "buf": rng.choice([None, 16, 128]),
            "stray": [rng.choice(["%s.bak", "%s.part", ".%s", "%s~", "old-%s", "%s.d/x", "tmpabc/%s", "UbiqLog/tmpx/%s"]) for _ in
                      range(rng.choice([0, 0, 1, 2]))], "devices": rng.random() < 0.4, "chunked": how, "chunk": rng.choice([7, 60, 1000]),
            "seed": rng.randrange(10 ** 9), "gap": rng.choice([2, 5, 15, -1])}


T0 = datetime.datetime(2017, 12, 23, 22, 15, 29)


def _ubiq(c):
    """(zip content, {user file: expected}) for a UbiqLog origin."""
    files, ev, drop = {}, {}, set()
    day = datetime.datetime(2013, 11, 29, 8, 15, 57)
    for i, (u, fl, pr, start, dur) in enumerate(c["rows"]):
        user = ("1_M", "2_F")[u]
        s = day + datetime.timedelta(seconds=start)
        e = s + datetime.timedelta(seconds=dur)
        proc = ("com.a", "com.b_c", "x")[pr]
        fmt = "%m-%d-%Y %H:%M:%S"
        line = json.dumps({"Application": {"ProcessName": proc, "Start": s.strftime(fmt), "End": e.strftime(fmt)}},
                          separators=(",", ":"))
        files.setdefault("UbiqLog4UCI/%s/log_11-%d-2013.txt" % (user, 20 + fl), []).append(line)
        ev.setdefault(user, []).extend([(s, proc + "_I")] if dur < 60 else [(s, proc + "_S"), (e, proc + "_E")])
    if c.get("bad"):  # a user whose log has a malformed date is left out, the others are not
        files["UbiqLog4UCI/9_F/log_11-20-2013.txt"] = [json.dumps({"Application": {"ProcessName": "com.a", "Start": x, "End": x}},
                                                                  separators=(",", ":"))
                                                       for x in ["11-20-2013 08:00:%02d" % k for k in range(12)] + ["0-0-2013 25:00:00"]]
    # the glob must match several files for grep to print their names
    for user in ("1_M", "2_F", "9_F"):
        files.setdefault("UbiqLog4UCI/%s/log_1-1-2014.txt" % user, []).append('{"Other":{}}')
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        for name in sorted(files):
            z.writestr(zipfile.ZipInfo(name), "\n".join(files[name]) + "\n")
    exp = {}
    for user, es in ev.items():
        counts = {}
        for _, x in es:
            counts[x] = counts.get(x, 0) + 1
        es = sorted(x for x in es if counts[x[1]] > 10)
        if len(es) <= 10:
            continue
        start = es[0][0]
        pairs = sorted((int((t - start).total_seconds() / 60), x) for t, x in es)
        out = [p for i, p in enumerate(pairs) if i == 0 or p != pairs[i - 1]]
        exp[user + "_ISE_data.dat"] = (user, start, out)
        simple, prev = [], None
        for m, x in pairs:
            if x[-1] in "IS":
                q = (m, x[:-2])
                if q != prev:
                    simple.append(q)
                    prev = q
        exp[user + "_IS_data.dat"] = (user, start, simple)
    return buf.getvalue(), exp


def serve(c):
    """(url, body, expected value)"""
    kind = c["kind"]
    if kind in ("fimi", "cgi", "any"):
        text = "".join(" ".join(map(str, r)) + c["eol"] for r in c["rows"])
        if not c["tail"]:
            text = text[:-1]
        name = c["ds"] + (".dat" if kind == "fimi" else "")
        zipped = kind == "cgi" or c.get("cgi")
        base = fimi.BASE_URL_CGI if zipped else ("http://mirror.example/d/" if kind == "any" else fimi.BASE_URL_FIMI)
        body = gzip.compress(text.encode(), mtime=0) if zipped else text.encode()
        return base + name.replace(" ", "%20"), body, (base, name, c["rows"])
    if kind == "health":
        rows = [(T0 + datetime.timedelta(seconds=s, milliseconds=ms), e) for s, ms, e in c["rows"]]
        body = "\n".join("%s|%s|30002312|msg %d" % (t.strftime("%Y%m%d-%H:%M:%S:") + "%03d" % (t.microsecond // 1000), e, i)
                         for i, (t, e) in enumerate(rows)) + ("\n" if c["tail"] else "")
        return periodic.health_app_url, body.encode(), rows
    if kind == "tv":
        rows = [(T0 + datetime.timedelta(seconds=s), e) for s, e in c["rows"]]
        body = "\n".join("%s,%s" % (t, '"%s"' % e if "," in e else e) for t, e in rows) + ("\n" if c["tail"] else "")
        return periodic.canadianTV_url, body.encode(), rows
    body, exp = _ubiq(c)
    return periodic.UBIQ_url, body, exp


def logrows(s):
    return [(t.to_pydatetime(), str(e)) for t, e in zip(s.index, s.values)]


def fetcher(c, f, exp, home):
    """(callable, expected value, how to bring the result to the expected form)"""
    kind = c["kind"]
    if kind in ("fimi", "cgi"):
        fn = FIMI[c["ds"]] if kind == "fimi" else CGI[c["ds"]]
        base, name, rows = exp
        if f["y"] and (kind == "cgi" or c["ds"] == "mushroom"):
            first = kind == "fimi"
            want = ([r[1:] if first else r[:-1] for r in rows],
                    [(0 if r[0] == 2 else r[0]) if first else r[-1] for r in rows])
            return (lambda: fn(data_home=home, return_y=True)), want, (lambda v: ([list(x) for x in v[0]], [int(y) for y in v[1]]))
        return (lambda: fn(data_home=home)), (rows, name.rsplit(".", 1)[0]), (lambda v: ([list(x) for x in v], v.name))
    if kind == "any":
        base, name, rows = exp
        return (lambda: fimi.fetch_any(name, base_url=base, data_home=home)), rows, (lambda v: [list(x) for x in v])
    if kind == "health":
        return (lambda: periodic.fetch_health_app(data_home=home, filename=c["ds"])), exp, logrows
    if kind == "tv":
        return (lambda: periodic.fetch_canadian_tv(data_home=home, filename=c["ds"])), exp, logrows
    uf = sorted(exp)[f["c"] % len(exp) if not f["y"] else -1]
    user, start, rows = exp[uf]

    def norm(v):
        if uf.endswith("_ISE_data.dat"):
            off = [(t.to_pydatetime() - start).total_seconds() for t in v.index]
            # the loader documents offsets in seconds but stores minutes: either reading is the same data
            k = 60 if max([m for m, _ in rows] + [0]) and max(off) >= 60 * max(m for m, _ in rows) else 1
            return [(int(o / k), str(e)) for o, e in zip(off, v.values)]
        return [(m, str(e)) for (m, _), e in zip(rows, v.values)] + [None] * (len(v) != len(rows))
    return (lambda: periodic.fetch_ubiq(user_filename=uf, data_home=home)), rows, norm


WGET = """#!/bin/sh
for a in "$@"; do case "$a" in http*|ftp*) url="$a";; esac; done
out="$(basename "$url")"
case "$VSIM_wget" in
 fail) echo f >> "$VSIM_MARK"; exit $VSIM_RC;;
 partial|crash) head -c "$VSIM_HALF" "$VSIM_SRC" > "$out"; echo f >> "$VSIM_MARK"; exit $VSIM_RC;;
esac
[ -n "$VSIM_DOWN" ] && { echo f >> "$VSIM_MARK"; exit 4; }
echo n >> "$VSIM_NETLOG"
exec cp "$VSIM_SRC" "$out"
"""
UNZIP = """#!/bin/sh
case "$VSIM_unzip" in
 fail) echo f >> "$VSIM_MARK"; exit $VSIM_RC;;
 partial|crash) echo f >> "$VSIM_MARK"; /usr/bin/unzip "$@" 'UbiqLog4UCI/1_M/*'; exit $VSIM_RC;;
 warn) /usr/bin/unzip "$@" && exit 1;;
esac
exec /usr/bin/unzip "$@"
"""
GREP = """#!/bin/sh
case "$VSIM_grep" in
 fail) echo f >> "$VSIM_MARK"; exit 2;;
 partial|crash) echo f >> "$VSIM_MARK"; /usr/bin/grep "$@" | head -n 25; exit 2;;
esac
exec /usr/bin/grep "$@"
"""


def execute(p, ctx):
    warnings.simplefilter("ignore")
    if not p["content"] or not p["groups"] or any(not c["rows"] for c in p["content"]):
        ctx.nontrivial = False
        return
    origin, exp = {}, []
    for c in p["content"]:
        url, body, e = serve(c)
        origin[url] = body
        exp.append(e)
    if any(c["kind"] == "ubiq" and not e for c, e in zip(p["content"], exp)):
        ctx.nontrivial = False
        return
    ch = Chooser(p["seed"], p.get("choices"))
    rng = random.Random(p["seed"])
    ctx.choices_rec = ch.rec
    keys, cached = [], [False] * len(p["content"])
    moved = []
    env = dict(os.environ)
    real_chdir = os.chdir
    ubiq = any(c["kind"] == "ubiq" for c in p["content"])
    with Scratch(("cwd", "tmp", "data", "bin")) as sc, contextlib.redirect_stdout(io.StringIO()):
        home = sc.data if p["home"] == "data" else os.path.join(sc.data, "a", "b")
        disk = Disk(sc.root, bufsize=p["buf"], devices=[sc.data, sc.tmp, sc.cwd] if p["devices"] else [])
        net = Net(origin, disk, chunked=p["chunked"], chunk=p["chunk"])
        netlog = os.path.join(sc.bin, "netlog")
        if ubiq:
            for name, text in (("wget", WGET), ("unzip", UNZIP), ("grep", GREP)):
                with R.open(os.path.join(sc.bin, name), "w") as fh:
                    fh.write(text)
                os.chmod(os.path.join(sc.bin, name), 0o755)
            with R.open(os.path.join(sc.bin, "src.zip"), "wb") as fh:
                fh.write(origin[periodic.UBIQ_url])

        modes = {}

        def shell(cmd):
            import threading
            who = threading.current_thread().name
            md = modes.get(who)
            mark = os.path.join(sc.bin, "mark-" + who)
            pre = "export VSIM_MARK=%s VSIM_SRC=%s/src.zip VSIM_NETLOG=%s VSIM_HALF=%d;" % (
                mark, sc.bin, netlog, max(1, len(origin[periodic.UBIQ_url]) // 2))
            if net.down:
                pre += "export VSIM_DOWN=1;"
            if md:
                pre += "export VSIM_RC=%d VSIM_%s=%s;" % (md["rc"], md["tool"], md["how"])
            rc = R.system("%s ( %s ) >/dev/null 2>&1 </dev/null" % (pre, cmd))
            if os.path.exists(mark):
                R.os["unlink"](mark)
                if md:
                    modes.pop(who)
                    net.fired.setdefault(who, []).append("command-" + md["how"])
                    if md["how"] == "crash":
                        disk.crash("system")
                else:
                    net.fired.setdefault(who, []).append("down")
            return rc

        def chdir(path):
            moved.append(str(path))
            return real_chdir(path)

        def group(fs, down, label):
            calls = []
            for i, f in enumerate(fs):
                via_env = f["env"] or p["home"] != "data"
                fn, want, norm = fetcher(p["content"][f["c"]], f, exp[f["c"]], None if via_env else home)
                calls.append((fn, want, norm, f))
            disk.procs = {}
            net.down = down
            sched = ThreadSched(ch, mean_gap=p["gap"], budget=400000)
            for i, (fn, want, norm, f) in enumerate(calls):
                who = "sim%d" % i
                disk.procs[who] = Proc([f["disk"]] if f["disk"] else [])
                net.arm(who, [f["net"]] if f["net"] else [])
                if f["sh"]:
                    modes[who] = dict(f["sh"])
                if f["intr"]:
                    sched.inj[i] = [f["intr"], KeyboardInterrupt("simulated"),
                                    lambda who=who: net.fired[who].append("interrupt-line")]
                for k in ("net", "disk", "sh"):
                    if f[k]:
                        ctx.count("planned:" + (f[k].get("kind") or "command-" + f[k]["how"]))
                if f["intr"]:
                    ctx.count("planned:interrupt-line")
            n0, m0 = len(disk.log), len(net.log)
            with Sim(clock=Clock(), disk=disk, net=net, shell=shell, sched=sched):
                outs = sched.run([c[0] for c in calls])
            modes.clear()
            fired, gone = [], []
            for i in range(len(fs)):
                pr = disk.procs["sim%d" % i]
                pr.bury()
                gone.append(pr.dead)
                mine = list(net.fired["sim%d" % i]) + [k for k, _ in pr.fired]
                for k in mine:
                    ctx.count("fault:" + k)
                fired.append(mine)
            disk.procs = {}
            net.down = False
            keys.append((tuple(s[1:] for s in sched.switches), tuple(k for k, _ in disk.log[n0:]), tuple(map(tuple, fired)),
                         len(net.log) - m0))
            if len(fs) > 1:
                ctx.count("reach:concurrent")
            anyfault = any(fired)
            was = list(cached)
            for i, ((fn, want, norm, f), (st, v)) in enumerate(zip(calls, outs)):
                c = p["content"][f["c"]]
                what = "%s fetch %d (%s %s)" % (label, i, c["kind"], c["ds"])
                ctx.event(label, i, st, type(v).__name__ if st == "exc" else None, fired[i])
                if st == "exc":
                    if type(v).__name__ == "HarnessError":
                        raise v
                    ctx.count("reach:raised")
                    dead = isinstance(v, SimCrash)
                    if not anyfault and not (down and not was[f["c"]]):
                        import traceback
                        tb = [x for x in traceback.extract_tb(v.__traceback__) if "/skmine/" in x.filename]
                        ctx.fail("fails-without-fault", "%s raised %s: %s%s although no fault hit it%s; faults before: %r" % (
                            what, type(v).__name__, str(v)[:300], " at %s:%d" % (tb[-1].filename, tb[-1].lineno) if tb else "",
                            ", with the data in the cache and the network down" if down else "", [k[2] for k in keys[:-1]]))
                    if not dead and not fired[i]:
                        ctx.count("reach:failed-by-neighbour")
                else:
                    if gone[i]:
                        continue
                    got = ctx.call(norm, v)
                    ctx.check(got.ok and got.value == want, "wrong-data", lambda: "%s returned %s instead of the %d rows of the "
                              "origin; faults so far: %r" % (what, _brief(got, want), len(c["rows"]), [k[2] for k in keys]))
                    cached[f["c"]] = True
                    ctx.count("reach:fetched")
                    if down:
                        ctx.count("reach:served-from-cache")
            ctx.check(not moved and R.os["getcwd"]() == sc.cwd, "working-directory",
                      lambda: "%s: the working directory was changed: %r" % (label, moved))

        try:
            os.environ["SCIKIT_MINE_DATA"] = home
            if ubiq:
                os.environ["PATH"] = sc.bin + ":" + os.environ.get("PATH", "/usr/bin:/bin")
            os.chdir = chdir
            for pat in p["stray"]:  # files of the user's own, next to the cached ones
                for c in p["content"]:
                    path = os.path.join(home, pat % (c["ds"] + (".dat" if c["kind"] == "fimi" else "")))
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    with R.open(path, "w") as fh:
                        fh.write("1 2 mine\n")
            for g, gr in enumerate(p["groups"]):
                if gr["f"]:
                    group(gr["f"], gr["down"], "group %d" % g)
            used = sorted({f["c"] for gr in p["groups"] for f in gr["f"]}) or [0]
            clean = {"y": False, "env": rng.random() < 0.5, "net": None, "disk": None, "intr": None, "sh": None}
            for i in used:
                group([dict(clean, c=i)], False, "after the faults:")
            for i in used:
                group([dict(clean, c=i), dict(clean, c=i, y=True)], True, "network down:")
        finally:
            os.chdir = real_chdir
            os.environ.clear()
            os.environ.update(env)
    ctx.sched_key = repr(keys)
    ctx.event(ctx.sched_key)
    ctx.nontrivial = bool(net.log) or ubiq


def _brief(got, want):
    if not got.ok:
        return "something unreadable (%s: %s)" % (type(got.exc).__name__, got.exc)
    v = got.value
    if isinstance(v, tuple):
        v, want = v[0], want[0]
    for k, (a, b) in enumerate(zip(v, want)):
        if a != b:
            return "%d rows (row %d is %r, not %r)" % (len(v), k, a, b)
    return "%d rows (same prefix) or other labels" % len(v)

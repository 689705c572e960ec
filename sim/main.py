"""python -m sim.main <property> quick|thorough | replay <file> | one <index> | digest <from> <to>"""
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import signal
import subprocess
import sys
import traceback

from . import boot

RUN_WALL = 90  # seconds of wall time after which a single run counts as hung (normal runs take milliseconds)
STEP_BUDGET = 4_000_000  # executed skmine lines that confirm a hang


class RunTimeout(BaseException):
    pass


def _alarm(*_):
    raise RunTimeout()


def make_plan(mod, seed, tier, i):
    rng = random.Random("%s/%d/%d" % (mod.ID, seed, i))
    p = mod.plan(rng, tier)
    p["sched_seed"] = rng.randrange(1 << 48)
    p.setdefault("choices", None)
    return p


def run_plan(mod, plan, wall=RUN_WALL):
    """Execute one simulated run.  Returns a plain dict."""
    from . import zygote
    zygote.ensure()
    from .core import Ctx, Violation
    from .sched import StepBudget
    from . import seams
    import gc
    ctx = Ctx(plan)
    res = {"status": "ok"}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, wall)
    try:
        mod.execute(plan, ctx)
    except Violation as v:
        res = {"status": "violation", "kind": v.kind, "msg": v.msg[:1500]}
    except StepBudget:
        res = {"status": "violation", "kind": "liveness", "msg": "a call did not return within the step budget"}
    except RunTimeout:
        res = {"status": "hang"}
    except BaseException as e:
        res = {"status": "harness", "msg": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        seams.ACTIVE = None
    ctx.event(res["status"], res.get("kind"))
    res["digest"] = ctx.digest()
    res["counts"] = ctx.counts
    res["sched"] = ctx.sched_key
    res["sim_time"] = ctx.sim_time
    res["nontrivial"] = ctx.nontrivial
    res["events"] = ctx.events if res["status"] == "violation" else None
    res["choices"] = getattr(ctx, "choices_rec", None) if res["status"] == "violation" else None
    return res


def confirm_hang(mod, plan):
    """Re-run a hung plan under a deterministic step budget (executed skmine lines)."""
    from .sched import _Counter, StepBudget
    from .core import Ctx, Violation
    from . import seams
    ctx = Ctx(plan)
    c = _Counter(budget=STEP_BUDGET)
    import threading
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 240)
    sys.settrace(c.glob)
    threading.settrace(c.glob)
    try:
        mod.execute(plan, ctx)
        return {"status": "slow"}
    except StepBudget:
        return {"status": "violation", "kind": "liveness",
                "msg": "a call did not return within %d executed lines" % STEP_BUDGET}
    except Violation as v:
        return {"status": "violation", "kind": v.kind, "msg": v.msg[:1500]}
    except BaseException as e:
        return {"status": "harness", "msg": repr(e)}
    finally:
        sys.settrace(None)
        threading.settrace(None)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        seams.ACTIVE = None


def worker(conn, propid, seed, tier):
    mod = importlib.import_module("sim.props." + propid.lower())
    devnull = os.open("/dev/null", os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VSIM_DEBUG"):
        os.dup2(devnull, 2)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import zygote
    zygote.ensure()
    past = []
    while True:
        try:
            i = conn.recv()
        except EOFError:
            os._exit(0)
        if i is None:
            os._exit(0)
        plan = make_plan(mod, seed, tier, i)
        r = run_plan(mod, plan)
        r["i"] = i
        if r["status"] == "violation":
            r["past"] = past[-3000:]
        past.append(i)
        conn.send(r)
        if r["status"] == "hang":
            os._exit(0)


class Pool:
    def __init__(self, n, propid, seed, tier):
        self.args = (propid, seed, tier)
        self.ctx = mp.get_context("fork")
        self.workers = {}
        for _ in range(n):
            self.spawn()

    def spawn(self):
        a, b = self.ctx.Pipe()
        p = self.ctx.Process(target=worker, args=(b,) + self.args, daemon=True)
        p.start()
        b.close()
        self.workers[a] = (p, None)

    def run(self, indices, on_result, stop):
        it = iter(indices)
        idle = list(self.workers)
        busy = {}
        done = False
        while True:
            while idle and not done and not stop():
                i = next(it, None)
                if i is None:
                    done = True
                    break
                c = idle.pop()
                c.send(i)
                busy[c] = i
            if not busy:
                break
            for c in multiprocessing.connection.wait(list(busy), timeout=RUN_WALL * 3):
                i = busy.pop(c)
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    r = {"status": "harness", "msg": "worker died", "i": i, "counts": {}, "digest": "", "sched": None,
                         "sim_time": 0, "nontrivial": False}
                    self._replace(c, idle)
                    on_result(r)
                    continue
                if r["status"] == "hang":
                    self._replace(c, idle)
                else:
                    idle.append(c)
                on_result(r)

    def _replace(self, c, idle):
        p, _ = self.workers.pop(c)
        c.close()
        p.join(5)
        before = set(self.workers)
        self.spawn()
        idle.extend(set(self.workers) - before)

    def close(self):
        for c, (p, _) in list(self.workers.items()):
            try:
                c.send(None)
            except OSError:
                pass
        for c, (p, _) in list(self.workers.items()):
            p.join(5)
            if p.is_alive():
                p.kill()


def in_child(fn, timeout):
    """Run fn in a forked child (so that a hang or a crash there does not matter) and return its value or None."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe()

    def body():
        if not os.environ.get("VSIM_DEBUG"):
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        b.send(fn())
        os._exit(0)
    p = ctx.Process(target=body, daemon=True)
    p.start()
    b.close()
    v = None
    if a.poll(timeout):
        try:
            v = a.recv()
        except EOFError:
            v = None
    p.kill()
    p.join()
    return v


def minimise(mod, plan, first, budget_s):
    """Greedy delta debugging; returns (plan, result)."""
    from .core import shrink_lists, shrink_choices
    from . import seams
    kind = first["kind"]
    end = seams.R.time() + budget_s
    best, bres = plan, first
    if first.get("choices") is not None:
        cand = dict(plan, choices=first["choices"])
        r = run_plan(mod, cand, wall=20)
        if r["status"] == "violation" and r["kind"] == kind:
            best, bres = cand, r
    improved = True
    tries = 0
    while improved and seams.R.time() < end:
        improved = False
        cands = []
        gens = [shrink_lists(best, getattr(mod, "SHRINK", []))]
        if hasattr(mod, "shrinks"):
            gens.append(mod.shrinks(best))
        gens.append(shrink_choices(best))
        for g in gens:
            for cand in g:
                if seams.R.time() > end:
                    break
                tries += 1
                try:
                    r = run_plan(mod, cand, wall=10)
                except BaseException:
                    continue
                if r["status"] == "hang":
                    return best, bres
                if r["status"] == "violation" and r["kind"] == kind:
                    best, bres = cand, r
                    improved = True
                    break
            if improved:
                break
    bres = dict(bres)
    bres["shrink_tries"] = tries
    return best, bres


def load_known(propid):
    p = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == propid and k.get("status") == "known"]


def matches(known, r):
    for k in known:
        if k["kind"] == r.get("kind") and k.get("contains", "") in r.get("msg", ""):
            return k
    return None


def run_after(mod, prefix, plan):
    """Run the plans of prefix, then plan, in this process."""
    for q in prefix:
        run_plan(mod, q)
    return run_plan(mod, plan)


def with_past(mod, seed, tier, r, budget_s):
    """A violation that needs what earlier runs left behind in the process: find a short sequence of earlier runs."""
    from . import seams
    end = seams.R.time() + budget_s
    plan = make_plan(mod, seed, tier, r["i"])
    past = r.get("past") or []

    def fails(idx):
        left = end - seams.R.time()
        if left <= 1:
            return None
        v = in_child(lambda: run_after(mod, [make_plan(mod, seed, tier, j) for j in idx], plan), left)
        return v if v and v["status"] == "violation" else None
    n, best, res = 1, None, None
    while past:
        cand = past[-n:]
        v = fails(cand)
        if v:
            best, res = cand, v
            break
        if n >= len(past) or seams.R.time() > end:
            break
        n *= 4
    if best is None:
        return None
    size = max(1, len(best) // 2)
    while len(best) > 1 and seams.R.time() < end:
        for s in range(0, len(best), size):
            cand = best[:s] + best[s + size:]
            v = fails(cand) if len(cand) < len(best) else None
            if v:
                best, res = cand, v
                break
        else:
            if size == 1:
                break
            size = max(1, size // 2)
            continue
        size = max(1, min(size, len(best) // 2))
    return [make_plan(mod, seed, tier, j) for j in best], plan, res


def write_replay(mod, seed, tier, i, plan, res, prefix=()):
    d = os.path.join(boot.VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%s.json" % (mod.ID, seed, i))
    with open(path, "w") as f:
        json.dump({"property": mod.ID, "seed": seed, "tier": tier, "index": i, "kind": res["kind"],
                   "message": res["msg"], "digest": res.get("digest"), "plan": plan, "earlier_runs": list(prefix),
                   "trace": (res.get("events") or [])[:200]}, f, indent=1)
    return path


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    mod = importlib.import_module("sim.props." + rec["property"].lower())
    if rec["kind"] == "liveness":
        r = in_child(lambda: confirm_hang(mod, rec["plan"]), 260) or {"status": "hang"}
    else:
        r = in_child(lambda: run_after(mod, rec.get("earlier_runs") or [], rec["plan"]), 260) or {"status": "hang"}
    return rec, r


def check(propid, tier, seed):
    from . import seams
    t0 = seams.R.time()
    mod = importlib.import_module("sim.props." + propid.lower())
    n = int(os.environ.get("VSIM_RUNS") or (mod.QUICK if tier == "quick" else mod.THOROUGH))
    hard = 780 if tier == "quick" else float(os.environ.get("VSIM_WALL", 4 * 3600))
    known = load_known(propid)
    nw = int(os.environ.get("VSIM_WORKERS") or min(8, os.cpu_count() or 1))
    pool = Pool(nw, propid, seed, tier)
    agg = {"runs": 0, "counts": {}, "scheds": set(), "digests": {}, "sim_time": 0.0, "nontrivial": set()}
    bad, harness, hangs, knownhits = [], [], [], {}
    state = {"timeout": False}

    def on_result(r):
        agg["runs"] += 1
        for k, v in r["counts"].items():
            agg["counts"][k] = agg["counts"].get(k, 0) + v
        if r["sched"] is not None:
            agg["scheds"].add(r["sched"])
        agg["sim_time"] += r["sim_time"]
        agg["digests"][r["i"]] = r["digest"]
        if r["nontrivial"]:
            agg["nontrivial"].add(r["digest"])
        if r["status"] == "violation":
            k = matches(known, r)
            if k:
                knownhits.setdefault(k["id"], [k, 0])[1] += 1
            else:
                bad.append(r)
        elif r["status"] == "hang":
            hangs.append(r)
        elif r["status"] == "harness":
            harness.append(r)

    def stop():
        if seams.R.time() - t0 > hard:
            state["timeout"] = True
            return True
        return bool(bad) or len(hangs) > 2 or len(harness) > 20

    pool.run(range(n), on_result, stop)
    # determinism: a sample of seeds again, in another order and so in other worker processes
    mism = []
    if not bad and not hangs and not harness and not state["timeout"]:
        again = [i for i in range(0, n, max(1, n // 40))][::-1]
        second = {}

        def on2(r):
            second[r["i"]] = r["digest"]
        pool.run(again, on2, lambda: False)
        mism = [i for i in second if second[i] != agg["digests"].get(i)]
    pool.close()

    rc = 0
    lines = []
    nviol = 0
    for kid, (k, c) in sorted(knownhits.items()):
        lines.append("KNOWN-FINDING: property=%s %s (%d runs)" % (propid, k["what"], c))
    for r in sorted(hangs, key=lambda r: r["i"])[:1]:
        if bad:
            break
        plan = make_plan(mod, seed, tier, r["i"])
        c = in_child(lambda: confirm_hang(mod, plan), 300) or {"status": "hang"}
        if c["status"] == "violation":
            c.update(i=r["i"], plan=plan)
            bad.append(c)
        else:
            harness.append({"i": r["i"], "msg": "run exceeded %ds of wall time (%s)" % (RUN_WALL, c.get("status"))})
    if bad:
        r = min(bad, key=lambda r: r["i"])
        plan = make_plan(mod, seed, tier, r["i"])
        best, bres = plan, r
        if r["kind"] != "liveness":
            m = in_child(lambda: minimise(mod, plan, r, 45 if tier == "quick" else 120), 120 if tier == "quick" else 260)
            if m:
                best, bres = m
        path = write_replay(mod, seed, tier, r["i"], best, bres)
        ok = fresh_replay(path)
        if not ok:
            path = write_replay(mod, seed, tier, r["i"], plan, r)
            ok = fresh_replay(path)
        if not ok and r["kind"] != "liveness":
            for r2 in sorted(bad, key=lambda r: r["i"])[:3]:
                m = with_past(mod, seed, tier, r2, 100)
                if m:
                    r, (pre, plan, bres) = r2, m
                    path = write_replay(mod, seed, tier, r["i"], plan, bres, pre)
                    ok = fresh_replay(path)
                    if ok:
                        break
        print("violation kind=%s run=%d: %s" % (bres["kind"], r["i"], bres["msg"]))
        if ok:
            nviol = len(bad)
            rc = 1
            lines.append("VIOLATION property=%s replay=%s" % (propid, path))
        else:
            print("the violation did not reproduce from its replay file")
            rc = 2
    elif harness:
        rc = 2
        for h in harness[:3]:
            print("HARNESS run=%s %s" % (h.get("i"), h["msg"]))
    elif state["timeout"]:
        rc = 2
        print("wall-clock cap reached after %d of %d runs: no verdict" % (agg["runs"], n))
    if mism:
        print("WARNING: %d of the re-run seeds gave another digest: %s" % (len(mism), mism[:5]))
    wall = seams.R.time() - t0
    evidence(mod, tier, seed, n, agg, wall, nviol, mism, len(second) if not (bad or hangs or harness or state["timeout"]) else 0)
    for l in lines:
        print(l)
    print("%s %s: %d runs, %d distinct schedules, %.1fs, rc=%d" % (propid, tier, agg["runs"], len(agg["scheds"]), wall, rc))
    return rc


def fresh_replay(path):
    env = dict(os.environ)
    env.pop("VSIM_BOOTED", None)
    p = subprocess.run([sys.executable, "-m", "sim.main", "any", "replay", path, "--quiet"], cwd=boot.VERIF, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode == 1


def evidence(mod, tier, seed, n, agg, wall, nviol, mism, nsecond):
    counts = agg["counts"]
    faults = {k[6:]: v for k, v in counts.items() if k.startswith("fault:")}
    planned = {k[8:]: v for k, v in counts.items() if k.startswith("planned:")}
    probes = {k[6:]: v for k, v in counts.items() if k.startswith("reach:")}
    other = {k: v for k, v in counts.items() if not k.startswith(("fault:", "planned:", "reach:"))}
    samples = []
    for i in (0, 1, max(0, n // 2)):
        if i < n:
            s = json.dumps(make_plan(mod, seed, tier, i))
            samples.append({"index": i, "plan": s if len(s) < 1500 else s[:1500] + "..."})
    h = hashlib.sha256()
    for i in sorted(agg["digests"]):
        h.update(("%d:%s;" % (i, agg["digests"][i])).encode())
    cov = {"evaluations": agg["runs"], "distinct_nontrivial": len(agg["nontrivial"]),
           "rule": mod.RULE,
           "samples": samples,
           "runs_per_hour": int(agg["runs"] / max(wall, 1e-9) * 3600),
           "seeds": "index 0..%d of master seed %d" % (n - 1, seed),
           "simulated_time_s": round(agg["sim_time"], 3),
           "faults_fired": faults, "faults_planned": planned, "reached": probes, "counters": other,
           "distinct_schedules": len(agg["scheds"]), "schedule_measure": getattr(mod, "SCHED_MEASURE", ""),
           "real_code": mod.REAL, "stubbed": mod.STUB,
           "digest_of_all_runs": h.hexdigest(),
           "determinism_reruns": nsecond, "determinism_mismatches": len(mism)}
    ev = {"property": mod.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(mod, "ASSUMES", []), "wall_s": round(wall, 2), "violations": nviol}
    d = os.path.join(boot.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main():
    boot.ensure_env()
    boot.load()
    propid, cmd = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if cmd in ("quick", "thorough"):
        sys.exit(check(propid, cmd, seed))
    if cmd == "replay":
        rec, r = replay(sys.argv[3])
        same = r["status"] == "violation" and r.get("kind") == rec["kind"]
        if same:
            exact = r.get("digest") == rec.get("digest") or rec["kind"] == "liveness"
            print(r.get("msg"))
            print("VIOLATION property=%s replay=%s%s" % (rec["property"], sys.argv[3], "" if exact else
                                                       " (digest differs)"))
            sys.exit(1)
        print("not reproduced: %s" % {k: r.get(k) for k in ("status", "kind", "msg")})
        sys.exit(0 if r["status"] == "ok" else 2)
    mod = importlib.import_module("sim.props." + propid.lower())
    if cmd == "one":
        tier = sys.argv[4] if len(sys.argv) > 4 else "quick"
        plan = make_plan(mod, seed, tier, int(sys.argv[3]))
        print(json.dumps(plan)[:3000])
        r = run_plan(mod, plan, wall=600)
        print({k: v for k, v in r.items() if k not in ("events", "choices")})
        print(r.get("msg", ""))
        sys.exit(0)
    if cmd == "digest":
        for i in range(int(sys.argv[3]), int(sys.argv[4])):
            r = run_plan(mod, make_plan(mod, seed, "quick", i))
            print(i, r["status"], r["digest"])
        sys.exit(0)
    sys.exit(2)


if __name__ == "__main__":
    main()

"""C11: GraphMDL under scripted clocks, time budgets, interrupts and fit histories."""
import contextlib
import io

from skmine.graph.graphmdl.code_table import CodeTable
from skmine.graph.graphmdl.graph_mdl import GraphMDL

from .. import gen
from ..sched import StepBudget, bounded, count_lines, interrupt
from ..seams import Clock, Sim
from . import graph_common as gc

ID = "C11"
QUICK, THOROUGH = 2000, 20000
RULE = "a run counts if at least one fit completed on a graph with two or more labels; distinct by digest of graphs, " \
       "clock scripts, readings and outcomes"
SHRINK = ["steps", "steps.0.graph.edges", "steps.1.graph.edges", "steps.0.clock.deltas"]
SCHED_MEASURE = "distinct (clock script, timeout, reading count, candidate count) histories"
REAL = ["skmine.graph.graphmdl from /repo and networkx subgraph matching"]
STUB = ["clock (scripted: stalls, jumps, backward steps; evaluating a candidate costs scripted time)"]
ASSUMES = ["graphs are directed, without self-loops and without two parallel edges of the same label, at most 12 "
           "vertices and 18 edges; labels are strings",
           "the deadline clause is only judged under clocks that do not run backwards"]
BUDGET = 6_000_000


def plan(rng, tier):
    steps = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        style = rng.choice(["steady", "steady", "jumpy", "back", "stall", "wild"])
        n = rng.randint(1, 40)
        deltas = {"steady": lambda: [rng.choice([0.001, 0.1, 1.0])], "stall": lambda: [0.0],
                  "jumpy": lambda: [rng.choice([0.0, 0.01, 0.01, 0.01, 0.01, 3600.0]) for _ in range(n)],
                  "back": lambda: [rng.choice([0.01, 0.5, -0.5, -3600.0, 1.0]) for _ in range(n)],
                  "wild": lambda: [rng.choice([0.0, 1e-6, 0.3, 1e9, -1e9, 7.0, -0.2]) for _ in range(n)]}[style]()
        s = {"graph": gen.graph(rng, *rng.choice([(8, 12)] * 35 + [(12, 18)] * 4 + [(18, 30)])),
             "timeout": rng.choice([None, None, 0, 0.01, 0.2, 1, 3, 10, 60, 1000]),
             "clock": {"start": rng.choice([0.0, 1.7e9]), "deltas": deltas},
             "ticks": [rng.choice([0.0, 0.0, 0.1, 0.6, 2.0, 30.0]) for _ in range(rng.randint(1, 5))]}
        if steps and rng.random() < 0.4:
            s["graph"] = steps[-1]["graph"]
        if rng.random() < 0.3:
            s["interrupt"] = rng.choice([5, 40, 200, 1000, 4000, 12000, 30000])
            s["exc"] = rng.choice(["KeyboardInterrupt", "MemoryError", "RecursionError"])
        if rng.random() < 0.1:
            s["bad"] = True
        steps.append(s)
    steps[-1].pop("interrupt", None)
    return {"steps": steps, "share": rng.random() < 0.3}


class Watch:
    """Counts candidates put into the code table, makes each cost scripted time, and time-stamps it."""

    def __init__(self, clock, ticks):
        self.clock, self.ticks = clock, ticks
        self.seen, self.stamps = [], []

    def __enter__(self):
        w, real = self, getattr(CodeTable, "add_row", None)
        self.real = real
        if real is None:  # renamed: the time limit is then only judged by the clock readings
            return self

        def add_row(ct, row, *a, **k):
            if not any(row is r for r in w.seen):
                w.seen.append(row)
                w.stamps.append(w.clock.now)
                if w.ticks:
                    w.clock.tick(w.ticks[(len(w.seen) - 1) % len(w.ticks)])
            return real(ct, row, *a, **k)
        CodeTable.add_row = add_row
        return self

    def __exit__(self, *a):
        if self.real is not None:
            CodeTable.add_row = self.real


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RecursionError": RecursionError}


def run_fit(ctx, m, G, timeout, clock, ticks, what, at=None, exc=None, cheap=True):
    args = (G,) if timeout is None else (G, timeout)
    with Sim(clock=clock), Watch(clock, ticks) as w:
        if at is not None:
            fired, out = interrupt(lambda: m.fit(*args), at, EXC[exc]("simulated"))
        else:
            fired = None
            _, out = (bounded if cheap else count_lines)(lambda: m.fit(*args), BUDGET)
    if out[0] == "exc":
        if isinstance(out[1], StepBudget):
            if G.number_of_nodes() > 12:  # the step budget is only a verdict on graphs that are clearly small
                raise TooBig
            ctx.fail("termination", "%s did not end within %d executed lines (%d candidates, %d clock readings)" % (
                what, BUDGET, len(w.seen), len(clock.readings)))
        if fired is None:
            ctx.must("exception", what, _raise, out[1])
    return w, fired, out


def _raise(e):
    raise e


class TooBig(Exception):
    pass


def execute(p, ctx):
    try:
        run(p, ctx)
    except TooBig:
        ctx.count("reach:too-big")
        ctx.sched_key = "too big"
        ctx.nontrivial = False


def run(p, ctx):
    m = GraphMDL()
    shared = None
    key = []
    done = 0
    for i, s in enumerate(p["steps"]):
        G = gen.build_graph(s["graph"])
        if shared is not None and p["share"] and s["graph"] == shared[0]:
            G = shared[1]
        shared = (s["graph"], G)
        before = gen.graph_content(G)
        what = "step %d: fit(timeout=%r)" % (i, s["timeout"])
        if s.get("bad"):
            o = ctx.call(m.fit, None, 0.5)
            ctx.check(not o.ok, "rejection", "fit(None) returned")
            ctx.count("fault:rejected-input")
        if not G.nodes or not gc.is_graph_labelled(G):
            continue
        clock = Clock(start=s["clock"]["start"], deltas=s["clock"]["deltas"] or [0.0])
        entry = clock.now
        deltas = s["clock"]["deltas"] or [0.0]
        ctx.count("planned:interrupt", 1 if s.get("interrupt") else 0)
        w, fired, out = run_fit(ctx, m, G, s["timeout"], clock, s["ticks"], what, s.get("interrupt"), s.get("exc"),
                                cheap=False)
        ctx.check(gen.graph_content(G) == before, "input", lambda: "%s changed the graph passed in" % what)
        if fired:
            ctx.count("fault:interrupt")
            ctx.event("interrupted", i)
            continue
        done += 1
        gc.check_model(ctx, m, s["graph"], what)
        with contextlib.redirect_stdout(io.StringIO()) as text:
            ctx.must("exception", what + ": discover", m.discover)
        ctx.check(str(m.description_length()) in text.getvalue(), "discover",
                  lambda: "%s: discover() does not show the description length %r" % (what, m.description_length()))
        ctx.sim_time += max(0.0, clock.now - entry)
        ctx.event(s["graph"], len(clock.readings), len(w.seen), m.description_length())
        key.append("%r/%r/%d/%d" % (s["clock"], s["timeout"], len(clock.readings), len(w.seen)))
        if s["timeout"]:
            for cond, name in ((any(d < 0 for d in deltas), "clock-backward"), (any(d > 10 for d in deltas), "clock-jump"),
                               (all(d == 0 for d in deltas), "clock-stall")):
                if cond:
                    ctx.count("fault:" + name)
        if s["timeout"] and min(deltas) >= 0:
            slack = sum(deltas[j % len(deltas)] for j in range(12))
            deadline = entry + slack + s["timeout"]
            late = [t for t in w.stamps if t > deadline]
            if late:
                ctx.count("reach:candidate-after-deadline")
            ctx.check(len(late) <= 1, "deadline", lambda: "%s evaluated %d candidates after the deadline %.3f: at %r" % (
                what, len(late), deadline, late[:5]))
        # the same fit on a new object with the same clock
        ref = GraphMDL()
        c2 = Clock(start=s["clock"]["start"], deltas=deltas)
        run_fit(ctx, ref, gen.build_graph(s["graph"]), s["timeout"], c2, s["ticks"], what + " on a new object")
        ctx.check(gc.state(m) == gc.state(ref), "history", lambda: "%s gives %r (%r), on a new object %r (%r)" % (
            what, m.description_length(), gc.show(m), ref.description_length(), gc.show(ref)))
        # no budget, or one never exhausted: clock does not matter
        full = GraphMDL()
        run_fit(ctx, full, gen.build_graph(s["graph"]), None, Clock(), [], what + " without timeout")
        if len(gc.table(full).rows()) > len(gc.table(m).rows()):
            ctx.count("reach:cut-short")
        if len(gc.table(full).rows()) >= 2:
            ctx.count("reach:two-patterns")
        other = GraphMDL()
        tmo = [None, 0, 1e18][i % 3]
        c3 = Clock(start=s["clock"]["start"], deltas=deltas)
        run_fit(ctx, other, gen.build_graph(s["graph"]), tmo, c3, s["ticks"], "step %d: fit(timeout=%r)" % (i, tmo))
        ctx.check(gc.state(full) == gc.state(other), "clock-dependence", lambda: "with timeout=%r the model depends on "
                  "the clock: %r %r, %r %r" % (tmo, full.description_length(), gc.show(full),
                                               other.description_length(), gc.show(other)))
    ctx.sched_key = "|".join(key)
    ctx.nontrivial = done > 0

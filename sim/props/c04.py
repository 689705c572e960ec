"""C04: SLIM under scripted clocks and time budgets."""
from skmine.itemsets import SLIM

from .. import gen
from ..seams import Clock, Sim, Paused
from . import slim_common as sc

ID = "C04"
QUICK, THOROUGH = 3500, 60000
RULE = "a run counts if at least one fit completed on a database with two or more items; distinct by digest of the " \
       "clock readings, the accepted patterns and the outcome"
SHRINK = ["D", "clock.deltas", "ticks"]
SCHED_MEASURE = "distinct (clock script, reading count, accepted pattern count) combinations"
REAL = ["skmine.itemsets.slim from /repo, unmodified fit/prefit/generate/evaluate/update/prune"]
STUB = ["clock (scripted: stalls, jumps, backward steps; work costs scripted time)"]
ASSUMES = ["the deadline clause is only judged under clocks that do not run backwards"]


def plan(rng, tier):
    D = sc.rich(rng, **({} if rng.random() < 0.85 else dict(max_t=60, max_i=14))) if rng.random() < 0.8 else gen.transactions(rng, max_t=12, max_i=6, big=0.1)
    style = rng.choice(["steady", "steady", "jumpy", "back", "stall", "wild"])
    n = rng.randint(1, 12)
    if style == "steady":
        deltas = [rng.choice([0.01, 0.1, 1.0])]
    elif style == "jumpy":
        deltas = [rng.choice([0.0, 0.01, 0.01, 3600.0, 50.0]) for _ in range(n)]
    elif style == "back":
        deltas = [rng.choice([0.01, 0.5, -0.5, -3600.0, 1.0]) for _ in range(n)]
    elif style == "stall":
        deltas = [0.0]
    else:
        deltas = [rng.choice([0.0, 1e-6, 0.3, 1e9, -1e9, 7.0, -0.2]) for _ in range(n)]
    return {"D": D, "itype": rng.choice(gen.ITYPES), "container": rng.choice(gen.CONTAINERS + ["tabular"]),
            "empty": rng.random() < 0.1, "items": rng.random() < 0.15,
            "pruning": rng.random() < 0.6, "max_time": rng.choice([0, 0.05, 0.5, 1, 2, 3, 10, 100, 1e6]),
            "clock": {"start": rng.choice([0.0, 1.7e9, 5.0]), "deltas": deltas},
            "pre": rng.choice([0, 0, 0.7, 20]), "ticks": [rng.choice([0.0, 0.0, 0.1, 0.6, 2.0]) for _ in range(rng.randint(1, 6))]}


def _clock(p):
    return Clock(start=p["clock"]["start"], deltas=p["clock"]["deltas"] or [0.0])


class Probe:
    """Watches the public search steps: work takes scripted time, accepted patterns are time-stamped."""

    def __init__(self, slim, clock, ticks, pre=0):
        self.pre = pre
        self.clock, self.ticks, self.i = clock, ticks, 0
        self.last = None
        self.now = clock.now
        self.accepted = []
        self.evals = 0
        for name in ("evaluate", "generate_candidates", "prefit"):
            self.wrap(slim, name)
        self.slim = slim

    def sample(self):
        s = self.slim
        try:
            cur = (float(s.data_size_), float(s.model_size_), len(s.codetable_))
        except AttributeError:
            return
        if self.last is not None and cur != self.last:
            self.accepted.append(self.now)
        self.last = cur

    def wrap(self, slim, name):
        f = getattr(slim, name)

        def g(*a, **k):
            self.sample()
            r = f(*a, **k)
            self.evals += 1
            if name == "prefit":  # reading a large dataset takes long
                self.clock.tick(self.pre)
                self.last = None
            elif self.ticks:
                self.clock.tick(self.ticks[self.i % len(self.ticks)])
                self.i += 1
            self.now = self.clock.now
            return r
        setattr(slim, name, g)


def execute(p, ctx):
    D = [list(t) for t in p["D"]]
    if not D or not any(D):
        ctx.nontrivial = False
        return
    kind = p["container"]
    if p["empty"] and kind in ("list", "tabular"):
        D = D[:1] + [[]] + D[1:] + [[]]
    X, rows = sc.build(D, p["itype"], kind)
    items = sorted(set().union(*rows)) + [gen.item(15, p["itype"])] if p["items"] else None
    mk = lambda mt: SLIM(pruning=p["pruning"], max_time=mt, items=items)
    what = "fit(max_time=%r, pruning=%r)" % (p["max_time"], p["pruning"])
    clock = _clock(p)
    slim = mk(p["max_time"])
    probe = Probe(slim, clock, p["ticks"], p["pre"])
    entry = clock.now
    with Sim(clock=clock):
        ctx.must("exception", what, slim.fit, X)
    probe.sample()
    ctx.sim_time += max(0.0, clock.now - entry)
    ctx.event(len(clock.readings), probe.accepted, probe.evals)
    sc.check_model(ctx, slim, rows, what, items=items)
    with Sim(clock=_clock(p)):
        sc.check_answers(ctx, slim, X, rows, what)
    deltas = p["clock"]["deltas"] or [0.0]
    if any(d < 0 for d in deltas):
        ctx.count("fault:clock-backward")
    if any(d > 10 for d in deltas):
        ctx.count("fault:clock-jump")
    if all(d == 0 for d in deltas):
        ctx.count("fault:clock-stall")
    if min(deltas) >= 0:
        slack = sum(deltas[i % len(deltas)] for i in range(3))
        deadline = entry + slack + p["max_time"]
        late = [t for t in probe.accepted if t > deadline]
        if late:
            ctx.count("reach:accepted-after-deadline")
        ctx.check(len(late) <= 1, "deadline", lambda: "%s accepted %d patterns after the deadline %.3f: at %r" % (
            what, len(late), deadline, late))
    # no budget: the clock must not matter
    full = []
    for clk in (_clock(p), Clock()):
        s = mk(-1)
        with Sim(clock=clk):
            ctx.must("exception", "fit without budget", s.fit, X)
        full.append(s)
    sc.check_model(ctx, full[0], rows, "fit without budget", items=items)
    ctx.check(sc.state(full[0]) == sc.state(full[1]), "clock-dependence",
              lambda: "without a budget the model depends on the clock: %r vs %r" % (
                  sc.fmt(full[0].codetable_), sc.fmt(full[1].codetable_)))
    n_full = len([1 for s in full[0].codetable_ if len(s) > 1])
    n_cut = len([1 for s in slim.codetable_ if len(s) > 1])
    if n_cut < n_full:
        ctx.count("reach:cut-short")
    if n_full >= 3:
        ctx.count("reach:three-patterns")
    s = mk(1e15)
    with Sim(clock=_clock(p)):
        ctx.must("exception", "fit with a budget that is never exhausted", s.fit, X)
    ctx.check(sc.state(s) == sc.state(full[0]), "budget-dependence",
              lambda: "a budget that was never exhausted changed the model: %r vs %r" % (
                  sc.fmt(s.codetable_), sc.fmt(full[0].codetable_)))
    ctx.sched_key = "%r/%d/%d" % (p["clock"], len(clock.readings), len(probe.accepted))
    ctx.nontrivial = len(set().union(*rows)) >= 2

"""Deterministic thread scheduler: real threads, one runs at a time, preempted at seeded source lines of skmine."""
import sys
import threading

from .seams import HarnessError, SimCrash

PREFIX = "/repo/skmine/"


class StepBudget(BaseException):
    """raised inside the code under test when a run exceeds its step budget (liveness)"""


class ThreadSched:
    def __init__(self, chooser, mean_gap=20, line_points=True, budget=3_000_000, focus=None, slack=None):
        self.ch = chooser
        self.mean = mean_gap
        self.line_points = line_points
        self.budget = budget
        self.focus = focus  # only these file suffixes preempt at lines
        self.steps = 0
        self.left = 0
        self.switches = []
        self.cur = None
        self.running = False
        self.inj = {}  # thread -> [steps left, exception]

    # -- called by the running thread ---------------------------------------------------------------------------
    def point(self, label=None):
        if not self.running or threading.current_thread() is not self.threads[self.cur]:
            return False
        self.steps += 1
        if self.steps > self.budget:
            raise StepBudget()
        if self.inj and self.cur in self.inj:
            f = self.inj[self.cur]
            f[0] -= 1
            if f[0] <= 0:
                del self.inj[self.cur]
                f[2]()
                raise f[1]
        if self.left < 0:  # no further preemption
            return False
        self.left -= 1
        if self.left > 0:
            return False
        self._new_gap()
        alive = [i for i in range(self.n) if not self.done[i] and i != self.cur]
        if not alive:
            return False
        nxt = alive[self.ch.pick(len(alive))]
        self._switch(nxt, label)
        return True

    def _new_gap(self):
        g = self.ch.gap(self.mean)
        self.left = g if g > 0 else -1

    def yield_now(self):
        """The running thread cannot proceed (a lock is held by another one): someone else must run."""
        if not self.running or threading.current_thread() is not self.threads[self.cur]:
            return False
        self.steps += 1
        if self.steps > self.budget:
            raise StepBudget()
        alive = [i for i in range(self.n) if not self.done[i] and i != self.cur]
        if not alive:
            return False
        self._switch(alive[self.ch.pick(len(alive))], "blocked")
        return True

    def _switch(self, nxt, label):
        me = self.cur
        if len(self.switches) < 5000:
            self.switches.append((self.steps, me, nxt, label))
        self.cur = nxt
        tr = sys.gettrace()
        self.sems[nxt].release()
        self.sems[me].acquire()
        self.cur = me
        if tr is not None and sys.gettrace() is None:
            sys.settrace(tr)

    def _global_trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if fn.startswith(PREFIX) and (self.focus is None or fn.endswith(self.focus)):
            return self._local_trace
        return None

    def _local_trace(self, frame, event, arg):
        if event == "line":
            self.point((frame.f_code.co_filename[len(PREFIX):], frame.f_lineno))
        return self._local_trace

    # -- driver ---------------------------------------------------------------------------------------------------
    def run(self, fns):
        self.n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.done = [False] * self.n
        self.out = [None] * self.n
        fin = threading.Event()

        def body(i):
            self.sems[i].acquire()
            if self.line_points:
                sys.settrace(self._global_trace)
            try:
                self.out[i] = ("ok", fns[i]())
            except BaseException as e:  # noqa: the outcome of the thread, judged by the property
                self.out[i] = ("exc", e)
            finally:
                sys.settrace(None)
            self.done[i] = True
            alive = [j for j in range(self.n) if not self.done[j]]
            if alive:
                nxt = alive[self.ch.pick(len(alive))]
                self.switches.append((self.steps, i, nxt, "end"))
                self.cur = nxt
                self.sems[nxt].release()
            else:
                self.running = False
                fin.set()

        self.threads = [threading.Thread(target=body, args=(i,), daemon=True, name="sim%d" % i)
                        for i in range(self.n)]
        for t in self.threads:
            t.start()
        self._new_gap()
        self.cur = self.ch.pick(self.n)
        self.running = True
        self.sems[self.cur].release()
        fin.wait()
        for t in self.threads:
            t.join()
        return self.out


# -- faults raised inside the code under test -----------------------------------------------------------------------
class _Counter:
    def __init__(self, at=None, exc=None, budget=None):
        self.n = 0
        self.at = at
        self.exc = exc
        self.budget = budget
        self.fired = None

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PREFIX):
            return self.loc
        return None

    def loc(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n == self.at and self.fired is None:
                self.fired = (frame.f_code.co_filename[len(PREFIX):], frame.f_lineno)
                raise self.exc
            if self.budget is not None and self.n > self.budget:
                raise StepBudget()
        return self.loc


def count_lines(fn, budget=None):
    """Runs fn counting executed skmine lines.  Returns (n, outcome)."""
    c = _Counter(budget=budget)
    old = sys.gettrace()
    sys.settrace(c.glob)
    try:
        try:
            out = ("ok", fn())
        except BaseException as e:
            out = ("exc", e)
    finally:
        sys.settrace(old)
    return c.n, out


def interrupt(fn, at, exc):
    """Runs fn raising exc at the at-th executed skmine line.  Returns (where it fired or None, outcome)."""
    c = _Counter(at=at, exc=exc)
    old = sys.gettrace()
    sys.settrace(c.glob)
    try:
        try:
            out = ("ok", fn())
        except BaseException as e:
            out = ("exc", e)
    finally:
        sys.settrace(old)
    return c.fired, out


def bounded(fn, budget):
    """Runs fn, raising StepBudget after that many python calls (cheaper than counting lines)."""
    n = [0]

    def glob(frame, event, arg):
        n[0] += 1
        if n[0] > budget:
            raise StepBudget()
        return None
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        try:
            out = ("ok", fn())
        except BaseException as e:
            out = ("exc", e)
    finally:
        sys.settrace(old)
    return n[0], out

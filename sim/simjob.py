"""joblib backends whose workers live inside the simulator.

Task order, batch sizes, completion order, process isolation and worker failures are decided by the run's Chooser and
fault plan.  joblib's own names are taken over while a simulation runs, so whatever backend the code under test (or the
user, through joblib.parallel_config) asks for is simulated: loky / multiprocessing become process workers (mode
'isolated': each task runs on a pickled copy and its result is pickled back, in this process; mode 'procs': the same in
real forked worker processes with their own module state), threading becomes mode 'shared' (tasks run one after the
other on the caller's objects) or 'threads' (tasks run concurrently, interleaved at source lines).
"""
import os
import pickle
import zlib

import cloudpickle
import joblib
from joblib._parallel_backends import FallbackToBackend, ParallelBackendBase, SequentialBackend
from joblib.externals.loky.process_executor import TerminatedWorkerError
from joblib.parallel import BACKENDS

from . import seams, zygote
from .sched import ThreadSched, interrupt
from .seams import SimWorkerDeath

EXC = {"MemoryError": MemoryError, "OSError": OSError, "RuntimeError": RuntimeError, "ValueError": ValueError,
       "KeyError": KeyError, "TypeError": TypeError}


def make_exc(name):
    if name == "OSError":
        return OSError(5, "simulated failure in a task")
    return EXC[name]("simulated failure in a task")


class _Job:
    __slots__ = ("func", "cb", "result", "exc", "no", "done", "mode")

    def __init__(self, func, cb, no, mode):
        self.func, self.cb, self.no, self.mode = func, cb, no, mode
        self.result = self.exc = None
        self.done = False


class JobSim:
    """mode: isolated | procs | shared | threads.  faults: [{"task": n, "kind": death-before | death-after |
    error-before | error-in, "at": line, "exc": name}]"""

    def __init__(self, chooser, mode="isolated", batch=1, faults=(), mean_gap=20, workers=4):
        self.ch = chooser
        self.proc_mode = mode if mode in ("isolated", "procs") else "isolated"
        self.thread_mode = mode if mode in ("shared", "threads") else "threads"
        self.mode = mode
        self.batch = batch
        self.faults = {int(f["task"]): f for f in faults}
        self.pending = []
        self.no = 0
        self.order = []
        self.fired = []
        self.mean_gap = mean_gap
        self.workers = workers
        self.steps = 0
        self.calls = 0
        self.in_thread = False
        self.pool = None

    def submit(self, func, cb, mode):
        j = _Job(func, cb, self.no, mode)
        self.no += 1
        self.pending.append(j)
        return j

    def _exec(self, j):
        f = self.faults.get(j.no)
        kind = f["kind"] if f is not None else None
        if kind == "death-before":
            self.fired.append(kind)
            raise TerminatedWorkerError("A worker process managed by the executor was unexpectedly terminated "
                                        "(simulated)")
        if kind == "error-before":
            self.fired.append(kind)
            raise make_exc(f.get("exc", "MemoryError"))
        at = int(f["at"]) if kind == "error-in" else None
        exc = make_exc(f.get("exc", "MemoryError")) if at else None
        func = j.func
        if j.mode == "procs":
            k = self.ch.pick(self.workers)
            if self.pool is None:
                self.pool = zygote.Workers()
            st, v, fired = self.pool.call(k, cloudpickle.dumps(func), seams.R.os["getcwd"](), at, exc,
                                          self.ch.pick(1 << 30))
            if fired:
                self.fired.append("error-in")
            if st == "death":
                raise TerminatedWorkerError(v)
            if st == "exc":
                raise v
            res = v
        else:
            if j.mode == "isolated":
                func = pickle.loads(cloudpickle.dumps(func))
            try:
                if at and self.in_thread:
                    sch = seams.ACTIVE.sched
                    sch.inj[sch.cur] = [at, exc, lambda: self.fired.append("error-in")]
                    res = func()
                    sch.inj.pop(sch.cur, None)
                elif at:
                    where, (st, v) = interrupt(func, at, exc)
                    if where is not None:
                        self.fired.append("error-in")
                    if st != "ok":
                        raise v
                    res = v
                else:
                    res = func()
            except SimWorkerDeath:
                raise TerminatedWorkerError("worker terminated (simulated)")
            if j.mode == "isolated":
                res = pickle.loads(cloudpickle.dumps(res))
        if kind == "death-after":
            self.fired.append("death-after")
            raise TerminatedWorkerError("worker terminated after its task (simulated)")
        return res

    def pump(self):
        """Some worker makes progress.  Returns False if there is nothing to do."""
        if not self.pending or self.in_thread:
            return False
        if self.pending[0].mode == "threads" and len(self.pending) > 1:
            k = min(len(self.pending), 2 + self.ch.pick(max(1, self.workers - 1)))
            batch = [self.pending.pop(self.ch.pick(len(self.pending))) for _ in range(k)]
            sch = ThreadSched(self.ch, mean_gap=self.mean_gap)
            sim = seams.ACTIVE
            old, sim.sched = sim.sched, sch
            self.in_thread = True
            try:
                outs = sch.run([lambda j=j: self._exec(j) for j in batch])
            finally:
                sim.sched = old
                self.in_thread = False
            self.steps += sch.steps
            self.order.append(("par", tuple(j.no for j in batch), zlib.crc32(repr(sch.switches).encode())))
            for j, (st, v) in zip(batch, outs):
                if st == "ok":
                    j.result = v
                elif isinstance(v, seams.SimCrash):
                    raise v
                else:
                    j.exc = v
                j.done = True
            ready = list(batch)
        else:
            j = self.pending.pop(self.ch.pick(len(self.pending)))
            self.order.append(j.no)
            try:
                j.result = self._exec(j)
            except seams.SimCrash:
                raise
            except BaseException as e:
                j.exc = e
            j.done = True
            ready = [j]
        while ready:
            j = ready.pop(self.ch.pick(len(ready)))
            j.cb(j)
        return True

    def close(self):
        if self.pool is not None:
            self.pool.end()
            self.pool = None

    def key(self):
        return repr(self.order)


class SimBackend(ParallelBackendBase):
    supports_retrieve_callback = True
    supports_return_generator = True
    supports_inner_max_num_threads = True
    default_n_jobs = 1
    kind = None
    REAL = None

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            return max(1, 8 + 1 + n_jobs)
        return n_jobs

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kw):
        n_jobs = self.effective_n_jobs(n_jobs)
        if n_jobs == 1:
            raise FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level))
        self.parallel = parallel
        self.sim = seams.ACTIVE.jobs
        self.sim.calls += 1
        return n_jobs

    def compute_batch_size(self):
        return self.sim.batch

    def submit(self, func, callback=None):
        return self.sim.submit(func, callback, self.sim.thread_mode if self.kind == "t" else self.sim.proc_mode)

    apply_async = submit

    def retrieve_result_callback(self, out):
        if out.exc is not None:
            raise out.exc
        return out.result

    def abort_everything(self, ensure_ready=True):
        self.sim.pending = []

    def get_nested_backend(self):
        return SequentialBackend(nesting_level=1), None


class SimProcs(SimBackend):
    kind = "p"
    uses_threads = False
    supports_sharedmem = False


class SimThreads(SimBackend):
    kind = "t"
    uses_threads = True
    supports_sharedmem = True


_REAL = dict(BACKENDS)


def _factory(name, cls):
    def make(*a, **k):
        s = seams.ACTIVE
        if s is not None and s.jobs is not None:
            k.pop("inner_max_num_threads", None)
            return cls(nesting_level=k.get("nesting_level"))
        return _REAL[name](*a, **k)
    for attr in ("uses_threads", "supports_sharedmem", "supports_inner_max_num_threads"):
        setattr(make, attr, getattr(cls, attr))
    return make


for _n, _c in (("loky", SimProcs), ("multiprocessing", SimProcs), ("threading", SimThreads)):
    if _n in BACKENDS:
        BACKENDS[_n] = _factory(_n, _c)


def user_backend(mode):
    """The backend the simulated user selects: none for process modes, threading for the others."""
    if mode in ("shared", "threads"):
        return joblib.parallel_config(backend="threading")
    import contextlib
    return contextlib.nullcontext()

"""Worker processes for the simulated process pool.

A zygote is forked right after boot, before any run, so that its children are as fresh as loky's: they share no module
state with the caller.  All communication is synchronous, so the order of execution stays the simulator's choice.
"""
import os
import pickle
import signal
import struct
import sys


class Chan:
    def __init__(self, r, w):
        self.r, self.w = r, w

    def send(self, b):
        b = struct.pack("<Q", len(b)) + b
        while b:
            n = os.write(self.w, b)
            b = b[n:]

    def recv(self):
        h = self._read(8)
        return self._read(struct.unpack("<Q", h)[0])

    def _read(self, n):
        out = b""
        while len(out) < n:
            c = os.read(self.r, min(1 << 20, n - len(out)))
            if not c:
                raise EOFError
            out += c
        return out

    def close(self):
        os.close(self.r)
        os.close(self.w)


def _pair():
    a, b = os.pipe()
    c, d = os.pipe()
    return Chan(a, d), Chan(c, b)


_chan = None
_owner = None


def _quiet():
    dn = os.open("/dev/null", os.O_RDWR)
    os.dup2(dn, 1)
    os.dup2(dn, 2)


def ensure():
    """Start this process's zygote (once per process; call it before any run)."""
    global _chan, _owner
    if _chan is not None and _owner == os.getpid():
        return _chan
    mine, theirs = _pair()
    pid = os.fork()
    if pid == 0:
        try:
            mine.close()
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_REAL, 0)
            sys.settrace(None)
            _zygote(theirs)
        finally:
            os._exit(0)
    theirs.close()
    _chan, _owner = mine, os.getpid()
    return _chan


def _zygote(ch):
    kids = {}
    _quiet()
    while True:
        try:
            msg = ch.recv()
        except EOFError:
            break
        op, k, payload = pickle.loads(msg)
        if op == "end":
            for c, pid in kids.values():
                c.close()
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
            kids = {}
            ch.send(b"ok")
            continue
        if k not in kids:
            mine, theirs = _pair()
            pid = os.fork()
            if pid == 0:
                try:
                    mine.close()
                    _worker(theirs, k)
                finally:
                    os._exit(0)
            theirs.close()
            kids[k] = (mine, pid)
        c, pid = kids[k]
        try:
            c.send(payload)
            ch.send(c.recv())
        except (EOFError, OSError):
            ch.send(pickle.dumps(("death", "worker process gone", 0)))
            try:
                os.waitpid(pid, 0)
            except OSError:
                pass
            c.close()
            del kids[k]
    for c, pid in kids.values():
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os._exit(0)


def _worker(ch, k):
    import random
    import cloudpickle
    import numpy as np
    from . import seams
    from .sched import interrupt
    while True:
        blob, cwd, at, exc, rng = pickle.loads(ch.recv())
        seams.ACTIVE = None
        np.random.seed(rng % (1 << 32))
        random.seed(rng)
        try:
            os.chdir(cwd)
            fn = pickle.loads(blob)
            fired = None
            if at:
                fired, (st, v) = interrupt(fn, at, exc)
                if st != "ok":
                    raise v
            else:
                v = fn()
            out = ("ok", v, fired is not None)
        except BaseException as e:
            out = ("exc", e, at is not None and e is exc)
        try:
            b = cloudpickle.dumps(out)
        except Exception as e:
            b = pickle.dumps(("exc", RuntimeError("result not picklable: %r" % (e,)), False))
        ch.send(b)


class Workers:
    """The worker processes of one simulated pool."""

    def __init__(self):
        self.ch = ensure()

    def call(self, k, blob, cwd, at, exc, rng):
        self.ch.send(pickle.dumps(("task", k, pickle.dumps((blob, cwd, at, exc, rng)))))
        return pickle.loads(self.ch.recv())

    def end(self):
        self.ch.send(pickle.dumps(("end", 0, None)))
        self.ch.recv()


def pristine(fn, *args):
    """fn(*args) in a process that has loaded the code under test but never run it.  Returns its value or raises."""
    import cloudpickle
    from functools import partial
    w = Workers()
    try:
        st, v, _ = w.call(0, cloudpickle.dumps(partial(fn, *args)), os.getcwd(), None, None, 0)
    finally:
        w.end()
    if st != "ok":
        raise v if isinstance(v, BaseException) else RuntimeError(v)
    return v

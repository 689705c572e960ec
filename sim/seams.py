"""Seams: every source of nondeterminism the properties depend on goes through here.

``install()`` is called once, before skmine is imported.  With no simulation active every seam is a pass-through.

* clock    - time.time / monotonic / perf_counter / sleep
* disk     - builtins.open, os.*, and (through them) shutil / tempfile / gzip / pandas writers and readers
* network  - urllib.request.urlopen (used by wget.download, urlretrieve and pandas.read_csv(url))
* processes- os.system, joblib (see simjob.py)
* threads  - see sched.py
"""
import builtins
import errno
import io
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import urllib.error
import urllib.request


class SimCrash(BaseException):
    """The simulated process dies here.  Nothing it does afterwards has any effect."""


class SimWorkerDeath(BaseException):
    """The simulated joblib worker dies here."""


class HarnessError(Exception):
    """The simulator itself is wrong: no verdict."""


class R:  # real functions
    pass


R.time, R.monotonic, R.perf_counter, R.sleep = time.time, time.monotonic, time.perf_counter, time.sleep
R.open = builtins.open
R.urlopen = urllib.request.urlopen
R.system = os.system
R.os = {n: getattr(os, n) for n in ("open", "mkdir", "rmdir", "unlink", "remove", "rename", "replace", "listdir",
                                    "scandir", "stat", "close", "chdir", "getcwd", "write", "fsync")}


ACTIVE = None  # the running Sim


class Clock:
    """Scripted wall clock.  Reading it advances it by the next delta of the script; `tick` models work taking time."""

    def __init__(self, start=1.7e9, deltas=(0.001,), loop=True):
        self.now = float(start)
        self.mono = 1000.0
        self.deltas = list(deltas) or [0.0]
        self.i = 0
        self.loop = loop
        self.readings = []

    def _adv(self):
        d = self.deltas[self.i % len(self.deltas)] if (self.loop or self.i < len(self.deltas)) else self.deltas[-1]
        self.i += 1
        self.tick(d)

    def tick(self, d):
        self.now += d
        if d > 0:
            self.mono += d

    def wall(self):
        self._adv()
        self.readings.append(self.now)
        return self.now

    def monotonic(self):
        self._adv()
        self.readings.append(self.mono)
        return self.mono


def _inside(path, root):
    return path == root or path.startswith(root + os.sep)


class Disk:
    """Simulated disk over a scratch directory: counts operations, injects errors, short writes and crashes.

    Faults: list of {"at": op number, "kind": "error"|"short"|"full"|"crash"|"torn", "errno": name}.
    Process-crash model: what was handed to write() is on disk, what sat in user-space buffers is gone, nothing the
    dying process does afterwards happens.
    """

    def __init__(self, root, rng=None, bufsize=None, devices=()):
        self.root = os.path.realpath(root)
        self.n = 0
        self.faults = {}
        self.log = []
        self.fired = []
        self.dead = False
        self.full = False
        self.bufsize = bufsize
        self.devices = [os.path.realpath(d) for d in devices]  # separate devices: rename between them gives EXDEV
        self.files = []
        self.enabled = True
        self.cleanup_faulted = False
        self.muted = 0
        self.readcap = None  # at most this many bytes per read (a legal short read)
        self.procs = {}  # thread name -> Proc, when simulated threads stand for processes sharing the disk

    def arm(self, faults):
        self.faults = {int(f["at"]): f for f in faults}

    def state(self):
        """The process that the calling thread belongs to."""
        return self.procs.get(threading.current_thread().name, self) if self.procs else self

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not os.path.isabs(p):
            p = os.path.join(R.os["getcwd"](), p)
        p = os.path.normpath(p)
        return _inside(p, self.root)

    def dev(self, path):
        p = os.fspath(path)
        if not os.path.isabs(p):
            p = os.path.join(R.os["getcwd"](), p)
        p = os.path.realpath(p)
        best = None
        for d in self.devices:
            if _inside(p, d) and (best is None or len(d) > len(best)):
                best = d
        return best

    def op(self, kind, path=None, mutating=True, can_fail=True):
        """One disk operation is about to happen; returns a fault to apply by the caller, or raises it."""
        if self.muted:
            return None
        st = self.state()
        if st.dead:
            raise SimCrash()
        s = ACTIVE
        if s is not None and s.sched is not None:
            s.sched.point(("disk", kind))
        n = st.n
        st.n += 1
        self.log.append((kind, _short(path, self.root)))
        f = st.faults.get(n)
        if f is None:
            if st.full and kind == "write":
                return {"kind": "short", "errno": "ENOSPC", "frac": 0.0}
            return None
        k = f["kind"]
        if k == "crash":
            self.crash(kind)
        if not mutating and k in ("short", "full", "torn"):
            return None
        if k == "error" and not can_fail:
            return None
        st.fired.append((k, kind))
        if kind in ("unlink", "rmdir", "remove", "scandir"):
            self.cleanup_faulted = True
        if k == "full":
            st.full = True
            if kind == "write":
                return {"kind": "short", "errno": "ENOSPC", "frac": f.get("frac", 0.5)}
            raise OSError(errno.ENOSPC, "No space left on device (simulated)", _short(path, self.root))
        if k in ("short", "torn") and kind == "write":
            return f
        raise OSError(getattr(errno, f.get("errno", "EIO")), "simulated I/O error in %s" % kind,
                      _short(path, self.root))

    def crash(self, kind=""):
        st = self.state()
        st.fired.append(("crash", kind))
        st.dead = True
        raise SimCrash()

    def revive(self):
        """Restart after a crash: buffers of the dead process are gone."""
        for f in self.files:
            f._sim_kill()
        self.files = []
        self.dead = False
        self.full = False


class Proc:
    """One simulated process among several sharing a disk."""

    def __init__(self, faults=()):
        self.n = 0
        self.faults = {int(f["at"]): f for f in faults}
        self.fired = []
        self.dead = False
        self.full = False
        self.files = []

    def bury(self):
        for f in self.files:
            f._sim_kill()
        self.files = []


def _short(path, root):
    try:
        p = os.fspath(path)
    except TypeError:
        return "<fd>" if isinstance(path, int) else str(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p.startswith(root):
        p = p[len(root):]
    # temporary names carry randomness of the simulated run only, keep them out of the digest
    return p


class SimFileIO(io.FileIO):
    _sim_disk = None
    _sim_dead = False

    def _sim_kill(self):
        self._sim_dead = True

    def write(self, b):
        if self._sim_dead:
            return len(b)
        d = self._sim_disk
        if d is None or not d.enabled:
            return super().write(b)
        f = d.op("write", self.name)
        if f is not None:
            m = memoryview(b).cast("B")
            n = int(len(m) * f.get("frac", 0.5))
            if n:
                super().write(m[:n])
            if f["kind"] == "torn":
                d.crash("write")
            raise OSError(getattr(errno, f.get("errno", "ENOSPC")), "simulated short write")
        return super().write(b)

    def readinto(self, b):
        d = self._sim_disk
        if d is not None and d.enabled and not self._sim_dead:
            d.op("read", self.name, mutating=False)
            if d.readcap and len(b) > d.readcap:
                return super().readinto(memoryview(b).cast("B")[:d.readcap])
        return super().readinto(b)

    def readall(self):
        d = self._sim_disk
        if d is not None and d.enabled and not self._sim_dead:
            if d.readcap:
                out = b""
                while True:
                    d.op("read", self.name, mutating=False)
                    c = super().read(d.readcap)
                    if not c:
                        return out
                    out += c
            d.op("read", self.name, mutating=False)
        return super().readall()

    def truncate(self, *a):
        if self._sim_dead:
            return 0
        return super().truncate(*a)

    def close(self):
        if not self.closed and not self._sim_dead:
            d = self._sim_disk
            if d is not None and d.enabled and self.writable() and not d.state().dead:
                try:
                    d.op("close", self.name)
                except BaseException:
                    super().close()
                    raise
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    s = ACTIVE
    if s is None or s.disk is None or not s.disk.enabled or isinstance(file, int) or not s.disk.inside(file):
        return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    d = s.disk
    writing = any(c in mode for c in "wax+")
    d.op("open-w" if writing else "open-r", file)
    rawmode = mode.replace("b", "").replace("t", "")
    raw = SimFileIO(file, rawmode, closefd=closefd, opener=opener)
    raw._sim_disk = d
    d.state().files.append(raw)
    try:
        if buffering == 0:
            return raw
        bs = d.bufsize or io.DEFAULT_BUFFER_SIZE
        if "+" in mode:
            buf = io.BufferedRandom(raw, bs)
        elif writing:
            buf = io.BufferedWriter(raw, bs)
        else:
            buf = io.BufferedReader(raw, io.DEFAULT_BUFFER_SIZE)
        if "b" in mode:
            return buf
        if encoding is None:
            encoding = "utf-8"
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
        t.mode = mode
        if writing and d.bufsize:
            try:
                t._CHUNK_SIZE = max(1, min(t._CHUNK_SIZE, d.bufsize))
            except Exception:
                pass
        return t
    except BaseException:
        raw.close()
        raise


def _wrap1(name, kind, mutating=True, can_fail=True):
    real = R.os[name]

    def f(path, *a, **k):
        s = ACTIVE
        if s is not None and s.disk is not None and s.disk.enabled:
            d = s.disk
            if k.get("dir_fd") is not None or (isinstance(path, int) is False and d.inside(path)):
                d.op(kind, path, mutating=mutating, can_fail=can_fail)
        return real(path, *a, **k)
    f.__name__ = name
    f.__wrapped__ = real
    return f


def _wrap_opt(name, kind):
    real = R.os[name]

    def f(path=".", *a, **k):
        s = ACTIVE
        if s is not None and s.disk is not None and s.disk.enabled and not isinstance(path, int):
            d = s.disk
            if d.inside(path):
                d.op(kind, path, mutating=False)
        out = real(path, *a, **k)
        if name == "listdir" and s is not None:
            out.sort()
        return out
    f.__name__ = name
    f.__wrapped__ = real
    return f


def _wrap2(name):
    real = R.os[name]

    def f(src, dst, *a, **k):
        s = ACTIVE
        if s is not None and s.disk is not None and s.disk.enabled:
            d = s.disk
            if d.inside(src) or d.inside(dst):
                d.op("rename", dst)
                if d.devices and d.dev(src) != d.dev(dst):
                    raise OSError(errno.EXDEV, "Invalid cross-device link (simulated)", str(src), None, str(dst))
        return real(src, dst, *a, **k)
    f.__name__ = name
    f.__wrapped__ = real
    return f


def _os_open(path, *a, **k):
    s = ACTIVE
    if s is not None and s.disk is not None and s.disk.enabled:
        d = s.disk
        if d.inside(path):
            d.op("os.open", path)
    return R.os["open"](path, *a, **k)


def _time():
    s = ACTIVE
    if s is not None and s.clock is not None:
        return s.clock.wall()
    return R.time()


def _monotonic():
    s = ACTIVE
    if s is not None and s.clock is not None:
        return s.clock.monotonic()
    return R.monotonic()


def _perf_counter():
    s = ACTIVE
    if s is not None and s.clock is not None:
        return s.clock.monotonic()
    return R.perf_counter()


def _sleep(x):
    s = ACTIVE
    if s is None:
        return R.sleep(x)
    if s.jobs is not None and s.jobs.pump():
        return None
    if s.clock is not None:
        s.clock.tick(max(0.0, x))
        return None
    if s.sched is not None and s.sched.point(("sleep",)):
        return None
    return None


def _urlopen(url, *a, **k):
    s = ACTIVE
    if s is None or s.net is None:
        raise urllib.error.URLError("no network in this sandbox")
    return s.net.urlopen(url)


def _system(cmd):
    s = ACTIVE
    if s is None:
        return R.system(cmd)
    if s.disk is not None and s.disk.enabled:
        s.disk.op("system", cmd.split()[0] if cmd.split() else "", can_fail=False, mutating=False)
    if s.shell is not None:
        return s.shell(cmd)
    return R.system(cmd)


def install():
    time.time, time.monotonic, time.perf_counter, time.sleep = _time, _monotonic, _perf_counter, _sleep
    builtins.open = sim_open
    io.open = sim_open
    os.open = _os_open
    os.mkdir = _wrap1("mkdir", "mkdir")
    os.rmdir = _wrap1("rmdir", "rmdir")
    os.unlink = _wrap1("unlink", "unlink")
    os.remove = _wrap1("remove", "unlink")
    os.stat = _wrap1("stat", "stat", mutating=False, can_fail=False)
    os.listdir = _wrap_opt("listdir", "listdir")
    os.scandir = _wrap_opt("scandir", "scandir")
    os.rename = _wrap2("rename")
    os.replace = _wrap2("replace")
    shutil._USE_CP_SENDFILE = False
    # shutil.rmtree looks its own functions up in these sets; keep the fd-based variant off so that the simulated
    # calls see plain paths
    shutil._use_fd_functions = False
    if hasattr(shutil.rmtree, "avoids_symlink_attacks"):
        shutil.rmtree.avoids_symlink_attacks = False
    urllib.request.urlopen = _urlopen
    os.system = _system
    threading.Lock = _lock_factory(threading.Lock)
    threading.RLock = _lock_factory(threading.RLock)


class SimLock:
    """A lock created by the code under test: a simulated thread that finds it taken hands over to another thread."""

    def __init__(self, real):
        self._real = real

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        if s is None or s.sched is None or not blocking:
            return self._real.acquire(blocking, timeout) if blocking else self._real.acquire(False)
        while not self._real.acquire(False):
            if not s.sched.yield_now():
                return self._real.acquire(blocking, timeout)
        return True

    def release(self):
        self._real.release()

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock objects")


def _lock_factory(real):
    def make(*a, **k):
        lock = real(*a, **k)
        if sys._getframe(1).f_code.co_filename.startswith("/repo/skmine/"):
            return SimLock(lock)
        return lock
    return make


class Sim:
    """One simulated process environment.  Use as a context manager."""

    def __init__(self, clock=None, disk=None, net=None, shell=None, sched=None, jobs=None, np_seed=0):
        self.clock, self.disk, self.net, self.shell, self.sched, self.jobs = clock, disk, net, shell, sched, jobs
        self.np_seed = np_seed

    def __enter__(self):
        global ACTIVE
        if ACTIVE is not None:
            raise HarnessError("nested simulation")
        import numpy as np
        np.random.seed(self.np_seed)
        random.seed(self.np_seed)
        ACTIVE = self
        return self

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = None
        if self.jobs is not None:
            self.jobs.close()
        return False


class Paused:
    """Harness code running inside a simulation (oracles, observers): seams are pass-through meanwhile."""

    def __enter__(self):
        global ACTIVE
        self.saved = ACTIVE
        ACTIVE = None

    def __exit__(self, *a):
        global ACTIVE
        ACTIVE = self.saved


class Scratch:
    """A private scratch tree; also redirects tempfile there and (optionally) the working directory."""

    def __init__(self, subdirs=("cwd", "tmp", "data")):
        self.subdirs = subdirs

    def __enter__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="vsim", dir=base))
        for d in self.subdirs:
            R.os["mkdir"](os.path.join(self.root, d))
            setattr(self, d, os.path.join(self.root, d))
        self.old_tmp = tempfile.tempdir
        self.old_cwd = R.os["getcwd"]()
        self.old_names = tempfile._name_sequence
        if "tmp" in self.subdirs:
            tempfile.tempdir = self.tmp
        # deterministic temporary names
        tempfile._name_sequence = _Names()
        if "cwd" in self.subdirs:
            R.os["chdir"](self.cwd)
        return self

    def __exit__(self, *a):
        global ACTIVE
        saved, ACTIVE = ACTIVE, None
        R.os["chdir"](self.old_cwd)
        tempfile.tempdir = self.old_tmp
        tempfile._name_sequence = self.old_names
        shutil.rmtree(self.root, ignore_errors=True)
        ACTIVE = saved
        return False


class _Names:
    def __init__(self):
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        return "sim%04d" % self.i


def snapshot(root):
    """Content of a directory tree as {relative path: bytes or '<dir>'}."""
    with Paused():
        out = {}
        for dp, dns, fns in os.walk(root):
            dns.sort()
            rel = os.path.relpath(dp, root)
            for d in dns:
                out[os.path.normpath(os.path.join(rel, d)) + "/"] = "<dir>"
            for f in sorted(fns):
                with R.open(os.path.join(dp, f), "rb") as fh:
                    out[os.path.normpath(os.path.join(rel, f))] = fh.read()
        return out

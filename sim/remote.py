"""A process with another string hash seed that runs requests, each in a fork of a state where nothing ever ran."""
import os
import pickle
import struct
import subprocess
import sys

_procs = {}


def call(hashseed, fn, *args):
    """fn(*args) in a pristine process whose PYTHONHASHSEED is hashseed; fn is a module-level function of sim.*"""
    key = (os.getpid(), hashseed)
    p = _procs.get(key)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VSIM_BOOTED="1")
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        p = subprocess.Popen([sys.executable, "-m", "sim.remote"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL, env=env, cwd=here)
        _procs[key] = p
    b = pickle.dumps((fn.__module__, fn.__name__, args))
    p.stdin.write(struct.pack("<Q", len(b)) + b)
    p.stdin.flush()
    n = struct.unpack("<Q", _read(p.stdout, 8))[0]
    st, v = pickle.loads(_read(p.stdout, n))
    if st != "ok":
        raise v
    return v


def _read(f, n):
    out = b""
    while len(out) < n:
        c = f.read(n - len(out))
        if not c:
            raise EOFError("remote process gone")
        out += c
    return out


def serve():
    import importlib
    inp = os.fdopen(os.dup(0), "rb")
    out = os.dup(1)
    dn = os.open("/dev/null", os.O_RDWR)
    for fd in (0, 1):
        os.dup2(dn, fd)
    from . import boot
    boot.load()
    while True:
        try:
            n = struct.unpack("<Q", _read(inp, 8))[0]
            msg = _read(inp, n)
        except EOFError:
            os._exit(0)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    mod, name, args = pickle.loads(msg)
                    res = ("ok", getattr(importlib.import_module(mod), name)(*args))
                except BaseException as e:
                    res = ("exc", RuntimeError("%s: %s" % (type(e).__name__, e)))
                b = pickle.dumps(res)
                with os.fdopen(w, "wb") as f:
                    f.write(b)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            b = f.read()
        os.waitpid(pid, 0)
        if not b:
            b = pickle.dumps(("exc", RuntimeError("remote run died")))
        b = struct.pack("<Q", len(b)) + b
        while b:
            k = os.write(out, b)
            b = b[k:]


if __name__ == "__main__":
    serve()

"""Simulated network: real http.client responses over a scripted byte stream."""
import http.client
import io
import socket
import threading
import urllib.error

from . import seams


class _Raw(io.RawIOBase):
    def __init__(self, data, chunk, at, act):
        self.data, self.pos, self.chunk, self.at, self.act = data, 0, chunk, at, act

    def readable(self):
        return True

    def readinto(self, b):
        s = seams.ACTIVE
        if s is not None and s.sched is not None:
            s.sched.point(("net", "read"))
        end = min(len(self.data), self.pos + min(len(b), self.chunk))
        if self.at is not None and end >= self.at:
            if self.pos >= self.at:
                return self.act() or 0
            end = self.at
        n = end - self.pos
        b[:n] = self.data[self.pos:end]
        self.pos = end
        return n


class _Sock:
    def __init__(self, raw):
        self.raw = raw

    def makefile(self, mode, *a, **k):
        return io.BufferedReader(self.raw, 256)

    def close(self):
        pass


class Net:
    """Faults per simulated process: list of {"kind", "frac"}, one per connection (None = healthy)."""

    def __init__(self, origin, disk=None, chunked=False, chunk=200):
        self.origin, self.disk, self.chunked, self.chunk = origin, disk, chunked, chunk
        self.down = False
        self.plans = {}
        self.fired = {}
        self.log = []

    def arm(self, who, faults):
        self.plans[who] = list(faults)
        self.fired[who] = []

    def urlopen(self, url):
        url = getattr(url, "full_url", url)
        who = threading.current_thread().name
        s = seams.ACTIVE
        if s is not None and s.sched is not None:
            s.sched.point(("net", "connect"))
        self.log.append((who, url))
        if self.down:
            self.fired.setdefault(who, []).append("down")
            raise urllib.error.URLError(socket.gaierror(-2, "Name or service not known (simulated)"))
        q = self.plans.get(who)
        f = q.pop(0) if q else None
        kind = f and f["kind"]
        if kind in ("refuse", "dns", "http"):
            self.fired[who].append(kind)
            if kind == "http":
                raise urllib.error.HTTPError(url, 503, "Service Unavailable (simulated)", {}, None)
            raise urllib.error.URLError(ConnectionRefusedError(111, "Connection refused (simulated)") if kind == "refuse"
                                        else socket.gaierror(-3, "Temporary failure in name resolution (simulated)"))
        body = self.origin.get(url)
        if body is None:
            raise urllib.error.HTTPError(url, 404, "Not Found (simulated)", {}, None)
        if self.chunked == "close":
            enc, head = body, b"HTTP/1.0 200 OK\r\nConnection: close\r\n\r\n"
        elif self.chunked:
            c = max(1, len(body) // 3)
            enc = b"".join(b"%x\r\n%s\r\n" % (len(body[i:i + c]), body[i:i + c]) for i in range(0, len(body), c))
            enc += b"0\r\n\r\n"
            head = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n"
        else:
            enc, head = body, b"HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n" % len(body)
        at = None
        if f is not None:
            # strictly inside the body, so that the transfer is always incomplete
            at = len(head) + min(len(body) - 1, int(f.get("frac", 0.5) * len(body)))

        def act():
            self.fired[who].append(kind)
            if kind == "trunc":
                return 0
            if kind == "reset":
                raise ConnectionResetError(104, "Connection reset by peer (simulated)")
            if kind == "stall":
                raise socket.timeout("timed out (simulated)")
            if kind == "interrupt":
                raise KeyboardInterrupt("simulated")
            if kind == "crash":
                self.disk.crash("net")
            raise AssertionError(kind)
        done = []

        def once():
            if done:
                return 0
            done.append(1)
            return act()
        r = http.client.HTTPResponse(_Sock(_Raw(head + enc, self.chunk, at, once)), method="GET", url=url)
        r.begin()
        r.url = url
        r.msg = r.reason
        return r

"""Runs, violations, shrinking."""
import copy
import hashlib
import json


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind
        self.msg = msg


class Outcome:
    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc

    def __repr__(self):
        return "ok(%r)" % (self.value,) if self.ok else "raised %s(%s)" % (type(self.exc).__name__, str(self.exc)[:200])


class Ctx:
    """Bookkeeping of one simulated run."""

    def __init__(self, plan):
        self.plan = plan
        self.counts = {}
        self.events = []
        self.h = hashlib.sha256()
        self.sched_key = None
        self.sim_time = 0.0
        self.nontrivial = True

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def event(self, *x):
        s = repr(x)
        self.h.update(s.encode("utf-8", "replace"))
        if len(self.events) < 400:
            self.events.append(s[:300])

    def fail(self, kind, msg):
        raise Violation(kind, msg)

    def check(self, cond, kind, msg):
        self.count("checks")
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    def call(self, fn, *a, **k):
        """Call into the code under test; any exception is an outcome."""
        self.count("calls")
        try:
            return Outcome(True, fn(*a, **k))
        except Exception as e:
            return Outcome(False, exc=e)

    def must(self, kind, what, fn, *a, **k):
        """Call that the property says must succeed."""
        o = self.call(fn, *a, **k)
        if not o.ok:
            import traceback
            tb = traceback.extract_tb(o.exc.__traceback__)
            where = [f for f in tb if "/skmine/" in f.filename]
            loc = " at %s:%d" % (where[-1].filename, where[-1].lineno) if where else ""
            raise Violation(kind, "%s raised %s: %s%s" % (what, type(o.exc).__name__, str(o.exc)[:300], loc))
        return o.value

    def digest(self):
        return self.h.hexdigest()[:16]


def shrink_lists(plan, paths):
    """Candidate plans smaller than plan: delta debugging on the lists (and nested lists) at the given paths."""
    for path in paths:
        lst = _get(plan, path)
        if not isinstance(lst, list) or not lst:
            continue
        n = len(lst)
        size = n
        while size >= 1:
            for s in range(0, n, size):
                cand = lst[:s] + lst[s + size:]
                if len(cand) < len(lst):
                    yield _set(plan, path, cand)
            size //= 2
        for i, e in enumerate(lst):
            if isinstance(e, list) and len(e) > 1:
                for j in range(len(e)):
                    yield _set(plan, path, lst[:i] + [e[:j] + e[j + 1:]] + lst[i + 1:])
            if isinstance(e, dict):
                for k, v in e.items():
                    if isinstance(v, list) and len(v) > 1:
                        for j in range(len(v)):
                            e2 = dict(e)
                            e2[k] = v[:j] + v[j + 1:]
                            yield _set(plan, path, lst[:i] + [e2] + lst[i + 1:])


def shrink_choices(plan):
    c = plan.get("choices")
    if not c:
        return
    n = len(c)
    for m in (0, n // 4, n // 2, 3 * n // 4, n - 1):
        if m < n:
            yield dict(plan, choices=c[:m])
    size = n // 2
    while size >= 1:
        for s in range(0, n, size):
            if any(c[s:s + size]):
                yield dict(plan, choices=c[:s] + [0] * len(c[s:s + size]) + c[s + size:])
        size //= 2
        if size < n / 64:
            break


def _get(o, path):
    for p in path.split("."):
        if isinstance(o, list):
            o = o[int(p)] if int(p) < len(o) else None
        else:
            o = o.get(p) if isinstance(o, dict) else None
        if o is None:
            return None
    return o


def _set(o, path, v):
    o = copy.deepcopy(o)
    ps = path.split(".")
    x = o
    for p in ps[:-1]:
        x = x[int(p)] if isinstance(x, list) else x[p]
    if isinstance(x, list):
        x[int(ps[-1])] = v
    else:
        x[ps[-1]] = v
    return o


def jdump(o):
    return json.dumps(o, sort_keys=True)

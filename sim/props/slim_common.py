"""Oracles for SLIM code tables: everything is recomputed from the training rows."""
import math

import numpy as np
import pandas as pd

from .. import gen


def table(slim):
    """[(frozenset, frozenset of tids)] in the order of the code table."""
    return [(frozenset(k), frozenset(int(t) for t in v)) for k, v in slim.codetable_.items()]


def supp(rows, iset):
    return sum(1 for r in rows if iset <= r)


def order_key(rows, iset):
    return (-len(iset), -supp(rows, iset), tuple(sorted(iset)))


def greedy(rows, isets):
    left = [set(r) for r in rows]
    out = []
    for s in isets:
        tids = [t for t, l in enumerate(left) if s <= l] if s else []
        for t in tids:
            left[t] -= s
        out.append(frozenset(tids))
    return out, left


def sizes(rows, ct):
    """(data size, model size) of a code table with usages, by the definition."""
    n1 = {}
    for r in rows:
        for i in r:
            n1[i] = n1.get(i, 0) + 1
    tot1 = sum(n1.values())
    start = {i: -math.log2(c / tot1) for i, c in n1.items()}
    used = [(s, len(t)) for s, t in ct if t]
    tot = sum(u for _, u in used)
    data = sum(-u * math.log2(u / tot) for _, u in used)
    model = sum(sum(start[i] for i in s) - math.log2(u / tot) for s, u in used)
    return data, model


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-3 + 2e-5 * abs(float(b))


def state(slim):
    return (tuple((k, tuple(sorted(t))) for k, t in table(slim)), float(slim.data_size_), float(slim.model_size_))


def check_model(ctx, slim, rows, what, bound=True, items=None, reconstruct=True):
    """rows: list of frozensets of items."""
    ct = table(slim)
    isets = [s for s, _ in ct]
    ctx.check(len(set(isets)) == len(isets), "duplicate-pattern", lambda: "%s: a pattern is listed twice" % what)
    want = sorted(isets, key=lambda s: order_key(rows, s))
    ctx.check(isets == want, "cover-order", lambda: "%s: code table is not in standard cover order: %r, expected %r" % (
        what, fmt(isets), fmt(want)))
    known = set().union(*rows) | set(items or ())
    ctx.check({i for s in isets if len(s) == 1 for i in s} == known, "singletons",
              lambda: "%s: singletons of the code table are not the items of the data" % what)
    got = [set() for _ in rows]
    for s, tids in ct:
        for t in tids:
            ctx.check(0 <= t < len(rows), "lossy", lambda: "%s: tid %d out of range" % (what, t))
            if got[t] & s:
                ctx.fail("overlap", "%s: transaction %d covered twice on %r" % (what, t, sorted(got[t] & s)))
            got[t] |= s
    ctx.check(got == [set(r) for r in rows], "lossy", lambda: "%s: the code table gives back %r for %r" % (
        what, [sorted(g) for g, r in zip(got, rows) if g != r][:3], [sorted(r) for g, r in zip(got, rows)
                                                                    if g != r][:3]))
    ref, _ = greedy(rows, isets)
    ctx.check([t for _, t in ct] == ref, "usage", lambda: "%s: usages are not those of the greedy cover: %r" % (
        what, [(sorted(s), sorted(t), sorted(r)) for (s, t), r in zip(ct, ref) if t != r][:3]))
    d, m = sizes(rows, ct)
    ctx.check(close(slim.data_size_, d) and close(slim.model_size_, m), "sizes",
              lambda: "%s: reported sizes (data %.4f, model %.4f) but the usages give (%.4f, %.4f)" % (
                  what, slim.data_size_, slim.model_size_, d, m))
    if bound:
        sd, sm = sizes(rows, [(frozenset([i]), frozenset(t for t, r in enumerate(rows) if i in r))
                              for i in sorted(set().union(*rows))])
        ctx.check(d + m <= sd + sm + 1e-3 + 2e-5 * (sd + sm), "no-compression",
                  lambda: "%s: total size %.4f is above the singleton-only table's %.4f" % (what, d + m, sd + sm))
    if reconstruct:
        rec = ctx.must("exception", what + ": reconstruct()", slim.reconstruct)
        ctx.check([list(r) for r in rec] == [sorted(r) for r in rows], "reconstruct",
                  lambda: "%s: reconstruct() gives %r" % (what, [list(r) for r in rec][:6]))


def check_answers(ctx, slim, X, rows, what):
    """The fitted model answers questions from its code table."""
    df = ctx.must("exception", what + ": transform", slim.transform, X, singletons=True, return_tids=True, drop_null_usage=False)
    got = [(tuple(i), tuple(int(x) for x in t)) for i, t in zip(df["itemset"], df["tids"])]
    ct = table(slim)
    ctx.check(got == [(tuple(sorted(s)), tuple(sorted(t))) for s, t in ct], "answers",
              lambda: "%s: transform shows %r for the code table %r" % (what, got[:5], fmt([s for s, _ in ct])))
    tot = sum(len(t) + 1 for _, t in ct)
    want = [0.0] * len(rows)
    for s, tids in ct:
        for t in tids:
            want[t] -= math.log2((len(tids) + 1) / tot)
    got = [float(v) for v in ctx.must("exception", what + ": get_code_length", slim.get_code_length, X)]
    ctx.check(len(got) == len(want) and all(abs(a - b) <= 1e-3 + 1e-4 * b or (b <= 1e-9 and math.isinf(a)) for a, b in zip(got, want)),
              "answers", lambda: "%s: code lengths of the training data are %r, the code table gives %r" % (what, got[:6], want[:6]))


def fmt(isets):
    return [sorted(map(str, s)) for s in isets][:8]


def rich(rng, max_t=24, max_i=10):
    """Rows with several planted patterns, so that SLIM accepts a handful of them."""
    m = rng.randint(3, max_i)
    pats = [rng.sample(range(m), min(m, rng.randint(2, 4))) for _ in range(rng.randint(1, 5))]
    out = []
    for _ in range(rng.randint(3, max_t)):
        t = []
        for q in pats:
            if rng.random() < 0.4:
                t += q
        if rng.random() < 0.4:
            t.append(rng.randrange(m))
        out.append(sorted(set(t)) or [rng.randrange(m)])
        rng.shuffle(out[-1])
    return out


def build(D, itype, kind):
    """(X, rows as frozensets)"""
    rows = gen.typed(D, itype)
    fs = [frozenset(r) for r in rows]
    if kind == "tabular":
        cols = sorted({i for r in rows for i in r})
        return pd.DataFrame([[int(c in r) for c in cols] for r in fs], columns=cols), fs
    if kind == "ndarray":
        m = max(i for r in D for i in r) + 1
        a = np.array([[int(c in set(r)) for c in range(m)] for r in D])
        return a, [frozenset(r) for r in D]
    return gen.container(rows, kind), fs

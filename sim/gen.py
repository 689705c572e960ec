"""Generators of inputs.  Everything is JSON until `build` time, so that plans can be stored and shrunk."""
import numpy as np
import pandas as pd

WORDS = ["ale", "bun", "cod", "dip", "egg", "fig", "gin", "ham", "ice", "jam", "kiwi", "leek", "mint", "nut", "oat", "pie"]


def big_transactions(rng, widest=70):
    """Databases at another scale: many items in few transactions, or many transactions over few items."""
    if rng.random() < 0.5:  # wide
        m = rng.choice([12, 17, 33, 60, 70] + [140, 300] * (widest > 70))
        out = []
        base = rng.sample(range(m), rng.randint(1, min(m, 30)))
        for _ in range(rng.randint(2, 8)):
            t = rng.sample(base, rng.randint(1, len(base))) if rng.random() < 0.6 else []
            t = list(dict.fromkeys(t + rng.sample(range(m), rng.randint(1, max(1, m // rng.choice([2, 4] if widest > 70 else [4]))))))
            out.append(t)
        return out
    m = rng.randint(2, 6)  # tall
    n = rng.choice([65, 129, 260, 300])
    kinds = [rng.sample(range(m), rng.randint(1, m)) for _ in range(rng.randint(2, 7))]
    return [list(rng.choice(kinds)) if rng.random() < 0.9 else [rng.randrange(m)] for _ in range(n)]


def transactions(rng, max_t=16, max_i=9, min_t=1, dup=False, big=0.0, widest=70):
    """A list of lists of small ints, with planted co-occurrence so that the pattern lattice is not trivial."""
    if big and rng.random() < big:
        return big_transactions(rng, widest)
    n = rng.randint(min_t, max_t)
    m = rng.randint(1, max_i)
    style = rng.random()
    blocks = [sorted(rng.sample(range(m), min(m, rng.randint(2, 4)))) for _ in range(rng.randint(1, 3))]
    dens = rng.choice([0.15, 0.3, 0.5, 0.75])
    out = []
    for _ in range(n):
        t = set()
        if style < 0.7:
            for b in blocks:
                if rng.random() < 0.5:
                    t.update(b if rng.random() < 0.8 else rng.sample(b, max(1, len(b) - 1)))
            for i in range(m):
                if rng.random() < dens * 0.4:
                    t.add(i)
        else:
            for i in range(m):
                if rng.random() < dens:
                    t.add(i)
        if not t:
            t.add(rng.randrange(m))
        t = list(t)
        rng.shuffle(t)
        if dup and rng.random() < 0.15:
            t.append(rng.choice(t))
        out.append(t)
        if rng.random() < 0.2:
            out.append(list(t))
    return out[:max_t + 4]


ITYPES = ["int", "int", "big", "str", "str", "numstr", "neg", "uni", "flt", "pad"]


def item(i, itype):
    if itype == "int":
        return i
    if itype == "big":
        return i * 1000 + 7
    if itype == "neg":
        return i - 4
    if itype == "str":
        return WORDS[i % len(WORDS)] + ("" if i < len(WORDS) else str(i))
    if itype == "numstr":
        return str(i * 7)
    if itype == "spaced":
        return "x y%d" % i
    if itype == "uni":
        return "\u00e9\u4e2d\U0001f600\u00df"[i % 4] + "abcd"[i // 4 % 4] + (str(i) if i > 15 else "")
    if itype == "flt":
        return i * 0.75 - 2
    if itype == "pad":  # white space at the ends, punctuation, the empty string
        return ["a ", " b", "", "c", "#d", "\te", "(2) f", " "][i % 8] + (str(i) if i > 7 else "")
    raise ValueError(itype)


def typed(D, itype):
    return [[item(i, itype) for i in t] for t in D]


CONTAINERS = ["list", "series", "series-idx", "tuples", "sets"]


def container(rows, kind):
    if kind == "list":
        return [list(r) for r in rows]
    if kind == "series":
        return pd.Series([list(r) for r in rows])
    if kind == "series-idx":
        return pd.Series([list(r) for r in rows], index=range(100, 100 + len(rows)))
    if kind in ("tuples", "sets"):
        rows = [tuple(r) for r in rows]
        # the iteration order of a set of ints does not depend on the hash seed
        return [set(r) for r in rows] if kind == "sets" and all(type(i) is int for r in rows for i in r) else rows
    raise ValueError(kind)


def min_supp(rng, n):
    """An int or a float whose meaning is not subject to rounding."""
    if rng.random() < 0.6:
        return rng.randint(1, max(1, min(n, 5))) if rng.random() < 0.85 else rng.randint(1, n + 1)
    for _ in range(20):
        f = rng.choice([0.1, 0.15, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.75, 0.05, 0.9, 1.0])
        if all((s >= f * n) == (s / n >= f) for s in range(n + 1)):
            return f
    return 1


def job_plan(rng, fault_rate=0.35, ntasks=10, modes=("isolated", "procs", "shared", "threads")):
    p = {"n_jobs": rng.choice([2, 2, 3, 4, 8, -1]), "mode": rng.choice(modes), "batch": rng.choice([1, 1, 2, 3]),
         "gap": rng.choice([2, 5, 15, 60, -1, -1]), "faults": []}
    if rng.random() < fault_rate:
        kind = rng.choice(["death-before", "death-after", "error-before", "error-in", "error-in"])
        p["faults"].append({"task": rng.randrange(ntasks), "kind": kind, "at": rng.choice([1, 3, 10, 25, 60, 150]),
                            "exc": rng.choice(["MemoryError", "OSError", "RuntimeError", "ValueError", "KeyError"])})
    return p


def closed_sets(rows, thr):
    """All closed itemsets with support >= thr: [(frozenset, tids tuple)] by intersecting transactions."""
    rows = [frozenset(r) for r in rows]
    inter = set()
    for r in rows:
        inter |= {r & s for s in inter}
        inter.add(r)
    out = {}
    for s in inter:
        if not s:
            continue
        tids = tuple(i for i, r in enumerate(rows) if s <= r)
        if len(tids) >= thr:
            out[s] = tids
    return out


def maximal_sets(closed):
    ks = sorted(closed, key=len, reverse=True)
    return {k: closed[k] for k in ks if not any(k < o for o in ks)}


def threshold(ms, n):
    return ms * n if isinstance(ms, float) else ms


def np_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4])


# -- event logs -------------------------------------------------------------------------------------------------------
EVENTS = {"str": ["coffee", "bed", "wake up", "run", "tea", "nap", "walk", "a"], "int": [2, 10, 1, 33, 0, 7, 101, -3],
          "num": ["10", "9", "1", "2", "100", "0", "3", "-1"],
          "odd": ["a[b]", "x, (r=3 p=2)", "(", "\u00e9 \u00fc", "a\"b", "d=4", "A", "a"]}


def log(rng, max_ev=3, size=1.0, long_rate=0.0):
    """An event log as JSON: planted cycles, nested cycles and sequences, noise, simultaneous and repeated events."""
    ne = rng.randint(1, max_ev) if rng.random() < 0.97 else rng.randint(5, 8)
    occ = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        style = rng.random()
        t, p, r = rng.randint(0, 60), rng.randint(2, 15), rng.randint(3, max(3, int(9 * size)))
        jit = rng.choice([0, 0, 1, 2])
        e = rng.randrange(ne)
        if style < 0.45:
            for i in range(r):
                occ.append([t + i * p + rng.randint(-jit, jit), e])
        elif style < 0.7:  # a sequence of events repeated
            seq = [(rng.randrange(ne), rng.randint(0, 4)) for _ in range(rng.randint(2, 3))]
            for i in range(r):
                d = 0
                for k, (e2, gap) in enumerate(seq):
                    d += gap if k else 0
                    occ.append([t + i * (p + 10) + d + rng.randint(-jit, jit), e2])
        else:  # nested cycles
            p1, r1 = rng.randint(1, 4), rng.randint(3, 4)
            for i in range(rng.randint(3, max(3, int(5 * size)))):
                for k in range(r1):
                    occ.append([t + i * (p + 25) + k * p1 + rng.randint(-jit, jit), e])
    for _ in range(rng.choice([0, 1, 3, 6])):
        occ.append([rng.randint(0, 120), rng.randrange(ne)])
    if rng.random() < long_rate:
        for i in range(rng.randint(205, 230) if rng.random() < 0.7 else rng.randint(258, 270)):
            occ.append([i * 3 + (rng.random() < 0.1), 0])
    if rng.random() < long_rate:  # many kinds of events, each with a cycle of its own
        for e in range(rng.randint(30, 110)):
            t, p = rng.randint(0, 400), rng.randint(20, 90)
            for i in range(rng.randint(3, 5) if rng.random() < 0.5 else rng.randint(5, 9)):
                occ.append([t + i * p, e])
    while len(occ) < 2:
        occ.append([rng.randint(0, 50), rng.randrange(ne)])
    if rng.random() < 0.3:
        occ += [list(rng.choice(occ)) for _ in range(rng.randint(1, 3))]
    order = rng.random()
    if order < 0.7:
        occ.sort(key=lambda x: x[0])
    else:
        rng.shuffle(occ)
    kind = rng.choice(["int", "int", "int", "int", "ns", "ns", "ns", "ns", "s", "us", "ms", "i32"])
    unit = rng.choice([1, 1, 10, 1000, 60, 3600, 86400])
    if kind == "int" and rng.random() < 0.08:
        unit = rng.choice([10 ** 10, 10 ** 11, 3 * 10 ** 12])
    if kind == "ns":
        unit *= rng.choice([1, 1, 10, 1000, 10 ** 6, 10 ** 9, 10 ** 9])
    if len(occ) < 150 and rng.random() < 0.12 or len(occ) >= 150 and rng.random() < 0.5:
        # round times with a few stragglers that are not as round
        big, small = rng.choice([(86400, 3600), (86400, 60), (86400, 1), (3600, 60), (3600, 1), (60, 1), (1000, 1), (100, 10)])
        occ = [[t * big, e] for t, e in occ]
        for o in rng.sample(occ, min(len(occ), rng.choice([1, 1, 2, 3]))):
            o[0] += small * rng.randint(1, 9)
        if rng.random() < 0.5:
            occ[-1 if rng.random() < 0.7 else 0][0] += small
        unit = 1 if kind != "ns" else rng.choice([1, 10 ** 9, 10 ** 9])
        if kind == "i32":
            kind = "int"
        if kind in ("us", "ms"):
            unit = {"us": 10 ** 6, "ms": 1000}[kind]
    return {"occ": occ, "ev": rng.choice(["str", "str", "str", "int", "int", "num", "num", "odd"]), "kind": kind, "unit": unit,
            "base": rng.choice([0, 0, 7, 365 * 24 * 3600, 1_600_000_000, 1_600_000_003, -86400 * 30]) if kind not in ("int", "i32")
            else 0 if kind == "i32" else rng.choice([0, 0, 5, -200, 10 ** 6, 10 ** 15 + 1, 9 * 10 ** 16 + 10])}


def log_series(lg):
    """(Series for the miner, sorted list of distinct (time as int, event)); times in ns for datetime indexes."""
    ev = EVENTS[lg["ev"]]
    vals = [ev[e] if e < len(ev) else ev[e % 8] * 1000 + e if lg["ev"] == "int" else "%s%d" % (ev[e % 8], e) for _, e in lg["occ"]]
    ts = [t * lg["unit"] for t, _ in lg["occ"]]
    if lg["kind"] == "i32":
        return pd.Series(vals, index=pd.Index(ts, dtype="int32")), sorted(set(zip(ts, vals)))
    if lg["kind"] == "int":
        ts = [t + lg["base"] for t in ts]
        return pd.Series(vals, index=ts), sorted(set(zip(ts, vals)))
    mul = {"ns": 1, "s": 10 ** 9, "us": 1000, "ms": 10 ** 6}[lg["kind"]]
    b = lg["base"] * 10 ** 9 // mul
    a = np.array([t + b for t in ts], dtype="int64").astype("datetime64[%s]" % lg["kind"])
    return pd.Series(vals, index=pd.DatetimeIndex(a)), sorted(set(zip([(t + b) * mul for t in ts], vals)))


def occ_list(df):
    """[(int time, event)] of a frame with columns time and event, in its row order."""
    t = df["time"]
    ts = t.astype("int64").tolist() if str(t.dtype).startswith("datetime") else [int(x) for x in t]
    return list(zip(ts, [e.item() if isinstance(e, np.generic) else e for e in df["event"]]))


# -- labelled graphs ------------------------------------------------------------------------------------------------
def graph(rng, max_n=8, max_e=12):
    """{"kind", "names", "nodes": [[id, labels or None]], "edges": [[a, b, label]]}; labels are strings."""
    n = rng.randint(1, max_n)
    V = ["x", "y", "z", "w", "u", "v"][:rng.randint(1, 4) if rng.random() < 0.85 else 6]
    E = ["a", "b", "c"][:rng.randint(1, 3)]
    kind = "multi" if rng.random() < 0.2 else "simple"
    nodes = []
    for i in range(1, n + 1):
        k = rng.random()
        if k < 0.2:
            nodes.append([i, None])
        elif k < 0.75:
            nodes.append([i, rng.choice(V)])
        else:
            nodes.append([i, rng.sample(V, min(len(V), rng.randint(1, 3 if rng.random() < 0.7 else 5)))])
    style = rng.random()
    edges, seen = [], set()

    def add(a, b, lab):
        key = (a, b, lab) if kind == "multi" else (a, b)
        if a != b and 1 <= a <= n and 1 <= b <= n and key not in seen:
            seen.add(key)
            edges.append([a, b, lab])
    if style < 0.35:  # repeated motif: chains or stars sharing labels
        m = rng.randint(1, 3)
        for s in range(1, n, m + 1):
            labs = [rng.choice(E) for _ in range(1)] * m
            for j in range(m):
                if rng.random() < 0.9:
                    add(s + j if style < 0.2 else s, s + j + 1, labs[j])
        if rng.random() < 0.6:
            for i in range(n):
                nodes[i][1] = V[(i % (m + 1)) % len(V)]
        if len(V) > 4:  # repeated vertices with many labels
            many = rng.sample(V, rng.randint(4, 5))
            for i in range(rng.randrange(2), n, m + 1):
                nodes[i][1] = list(many)
        for _ in range(rng.randint(0, 4)):
            add(rng.randint(1, n), rng.randint(1, n), rng.choice(E))
    else:
        hub = 1 if style > 0.75 else None
        for _ in range(rng.randint(0, max_e)):
            add(rng.randint(1, n), hub or rng.randint(1, n), rng.choice(E))
    if not edges and not any(x[1] for x in nodes):
        nodes[0][1] = V[0]
    g = {"kind": kind, "names": "str" if rng.random() < 0.12 else "int", "nodes": nodes, "edges": edges}
    k = rng.random()
    if k < 0.25:  # labels that look like vertex numbers, like the names of patterns, or shared by vertices and edges
        names = {"num": lambda i, c: str(i + 1), "pat": lambda i, c: "P%d" % i, "both": lambda i, c: "xyzwuvxyz"[i],
                 "node": lambda i, c: "n%d" % (i + 1), "long": lambda i, c: "lab%s" % c * (i + 1),
                 "sub": lambda i, c: "x" * (i + 1), "bus": lambda i, c: "ab"[i % 2:] + "ab" * (i // 2)}
        f = names[rng.choice(sorted(names))]
        mp = {c: f(i, c) for i, c in enumerate("xyzwuvabc")}
        g["nodes"] = [[i, x if x is None else mp[x] if isinstance(x, str) else [mp[y] for y in x]] for i, x in nodes]
        g["edges"] = [[a, b, mp[x]] for a, b, x in edges]
    if kind == "multi" and rng.random() < 0.4:
        g["keys"] = rng.choice(["str", "gaps", "back"])
    return g


def build_graph(g):
    import networkx as nx
    G = nx.MultiDiGraph() if g["kind"] == "multi" else nx.DiGraph()
    nm = (lambda i: "n%d" % i) if g["names"] == "str" else (lambda i: i)
    ids = {i for i, _ in g["nodes"]}
    for i, lab in g["nodes"]:
        if lab is None:
            G.add_node(nm(i))
        else:
            G.add_node(nm(i), label=lab if isinstance(lab, str) else tuple(lab))
    for a, b, lab in g["edges"]:
        if a in ids and b in ids:
            if g.get("keys"):
                n = G.number_of_edges()
                G.add_edge(nm(a), nm(b), key={"str": "k%d" % n, "gaps": 2 * n + 1, "back": 99 - n}[g["keys"]], label=lab)
            else:
                G.add_edge(nm(a), nm(b), label=lab)
    return G


def labels_of(d):
    lab = d.get("label")
    return [] if lab is None else [lab] if isinstance(lab, str) else list(lab)


def graph_content(G):
    return (type(G).__name__, sorted((repr(n), repr(d)) for n, d in G.nodes(data=True)),
            sorted((repr(a), repr(b), repr(d)) for a, b, d in G.edges(data=True)), repr(G.graph))

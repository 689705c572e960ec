"""Every estimator of the library behind one interface: JSON plans -> objects, inputs, queries, canonical answers."""
import datetime

import numpy as np
import pandas as pd
import networkx as nx
from pyroaring import BitMap
from skmine.emerging import MBDLLBorder
from skmine.feature_extraction import SLIMVectorizer
from skmine.graph.graphmdl.graph_mdl import GraphMDL
from skmine.itemsets import LCM, SLIM, SlimClassifier
from skmine.itemsets.lcm import LCMMax
from skmine.periodic import PeriodicPatternMiner
from skmine.preprocessing import MDLPDiscretizer

from . import gen

KINDS = ["lcm", "lcmmax", "slim", "slimclf", "slimvec", "mbdll", "mdlp", "periodic", "graph"]
CLS = {"lcm": LCM, "lcmmax": LCMMax, "slim": SLIM, "slimclf": SlimClassifier, "slimvec": SLIMVectorizer,
       "mbdll": MBDLLBorder, "mdlp": MDLPDiscretizer, "periodic": PeriodicPatternMiner, "graph": GraphMDL}


# -- canonical values -------------------------------------------------------------------------------------------------
def canon(x, order=False):
    """A comparable picture of a value: types that users can tell apart stay apart, floats are exact."""
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, np.generic):
        return (x.dtype.str, repr(x.item()))
    if isinstance(x, float):
        return ("f", repr(x))
    if isinstance(x, int):
        return x
    if isinstance(x, BitMap):
        return ("bitmap", tuple(x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((canon(v) for v in x), key=repr)))
    if isinstance(x, dict):
        it = [(canon(k), canon(v)) for k, v in x.items()]
        return (type(x).__name__, tuple(it))
    if isinstance(x, pd.DataFrame):
        return ("df", canon(x.index), canon(list(x.columns)), canon(list(x.columns.names)),
                tuple((str(x.dtypes.iloc[j]), tuple(canon(v) for v in x.iloc[:, j].tolist())) for j in range(x.shape[1])))
    if isinstance(x, pd.Series):
        return ("series", str(x.dtype), canon(x.name), canon(x.index), tuple(canon(v) for v in x.tolist()))
    if isinstance(x, pd.Index):
        return ("index", str(x.dtype), canon(list(x.names)), tuple(canon(v) for v in x.tolist()))
    if isinstance(x, np.ndarray):
        return ("array", str(x.dtype), x.shape, tuple(canon(v) for v in x.ravel().tolist()))
    if isinstance(x, (pd.Timestamp, pd.Timedelta, datetime.datetime, datetime.timedelta)):
        return (type(x).__name__, str(x))
    if isinstance(x, nx.Graph):
        return ("graph",) + tuple(repr(v) for v in gen.graph_content(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(v) for v in x))
    if isinstance(x, BaseException):
        return ("exc", type(x).__name__)
    return ("obj", type(x).__name__, repr(x))


def first_diff(a, b, path="answer"):
    if type(a) is not type(b) or not isinstance(a, tuple):
        return None if a == b else "%s: %s instead of %s" % (path, str(b)[:200], str(a)[:200])
    if len(a) != len(b):
        return "%s: %s instead of %s" % (path, str(b)[:300], str(a)[:300])
    for i, (x, y) in enumerate(zip(a, b)):
        d = first_diff(x, y, "%s.%s" % (path, x if isinstance(x, str) and i == 0 else i))
        if d:
            return d
    return None


# -- plans ------------------------------------------------------------------------------------------------------------
def params(kind, rng, jobs=1):
    if kind in ("lcm", "lcmmax"):
        return {"min_supp": rng.choice([1, 2, 2, 3, 0.2, 0.25, 0.5]), "n_jobs": jobs}
    if kind == "slim":
        return {"pruning": rng.random() < 0.5, "items": rng.choice([None, None, None, "all", "few", "all-set", "few-set"]),
                "max_time": rng.choice([-1, -1, 0, 1, 60])}
    if kind == "slimclf":
        return {"items": rng.choice([None, "all", "all-set"]), "pruning": rng.random() < 0.5}
    if kind == "slimvec":
        return {"strategy": rng.choice(["codes", "one-hot"]), "k": rng.randint(1, 6), "pruning": rng.random() < 0.4,
                "stop_items": rng.choice([None, None, [0], [1, 2], [99]]), "items": rng.choice([None, None, None, "few", "all-set"]),
                "max_time": rng.choice([-1, -1, -1, 0, 60])}
    if kind == "mbdll":
        return {"min_growth_rate": rng.choice([1.5, 2, 3]), "min_supp": rng.choice([0.05, 0.1, 0.2, 0.3]), "n_jobs": jobs}
    if kind == "mdlp":
        return {"random_state": rng.randrange(50), "n_jobs": jobs}
    if kind == "periodic":
        return {"complex": rng.random() < 0.7, "auto_time_scale": rng.random() < 0.75}
    return {}


def data(kind, rng, size=1.0):
    if kind == "periodic":
        return {"log": gen.log(rng, size=size)}
    if kind == "graph":
        return {"graph": gen.graph(rng, max_n=max(2, int(6 * size)), max_e=max(2, int(8 * size))),
                "timeout": rng.choice([None, None, None, None, 5])}
    if kind == "mdlp":
        n, m, k = rng.randint(2, int(16 * size)), rng.randint(1, 4), rng.randint(2, 3)
        rows = []
        for _ in range(n):
            y = rng.randrange(k)
            rows.append([y, [round((y if rng.random() < 0.8 else rng.randrange(k)) * 10 + rng.choice([rng.random() * 9, rng.randint(0, 3)]), 3)
                             for _ in range(m)]])
        return {"rows": rows, "frame": rng.random() < 0.5, "yseries": rng.random() < 0.4, "idx": rng.random() < 0.4}
    t = gen.transactions(rng, max_t=int(12 * size), max_i=7, min_t=2)
    d = {"rows": [[rng.randrange(2), r] for r in t], "itype": "int", "cont": rng.choice(gen.CONTAINERS)}
    d["rows"][0][0], d["rows"][1][0] = 0, 1
    if kind == "slim" and rng.random() < 0.35:
        d["cont"] = rng.choice(["frame", "frame", "array"])
        d["idx"], d["y"] = rng.random() < 0.5, rng.random() < 0.2
    if kind == "mbdll":
        d["cont"] = rng.choice(["series", "series-idx"])
    if kind != "mbdll" and kind != "slimvec":
        d["itype"] = rng.choice(["int", "int", "str", "big"])
    return d


def bad_data(kind, rng):
    """Inputs that a fit rejects (or may reject)."""
    if kind in ("lcm", "lcmmax", "slim", "slimvec"):
        return rng.choice(["ints", "none", "empty", "unhashable"] + (["nanframe", "objframe", "mixed"] if kind == "slim" else []))
    if kind == "slimclf":
        return rng.choice(["ints", "none", "unhashable", "short-y", "bad-class"])
    if kind == "mbdll":
        return rng.choice(["list", "one-label", "three-labels", "ints"])
    if kind == "mdlp":
        return rng.choice(["no-y", "float-y", "one-dim", "text"])
    if kind == "periodic":
        return rng.choice(["list", "none", "text-index", "one", "empty", "mixed-index"])
    return rng.choice(["none", "empty", "undirected", "selfloop"])


def kwargs(kind, p):
    k = dict(p)
    if isinstance(k.get("items"), str):
        how = k["items"].split("-")
        k["items"] = (set if how[1:] else list)(range(8) if how[0] == "all" else [0, 1, 100])
    if k.get("stop_items") is not None:
        k["stop_items"] = set(k["stop_items"])
    return k


def make(kind, p):
    return CLS[kind](**kwargs(kind, p))


def inputs(kind, d):
    """Positional arguments of fit, newly built."""
    if kind == "periodic":
        return (gen.log_series(d["log"])[0],)
    if kind == "graph":
        return (gen.build_graph(d["graph"]), d.get("timeout"))
    if kind == "mdlp":
        X = np.array([r[1] for r in d["rows"]], dtype=float)
        y = np.array([r[0] for r in d["rows"]])
        if d["frame"]:
            X = pd.DataFrame(X, columns=["c%d" % (9 - j) for j in range(X.shape[1])], index=_index(d, len(X)))
        return (X, pd.Series(y, name="lab", index=_index(d, len(y))) if d["yseries"] else y)
    rows = gen.typed([r[1] for r in d["rows"]], d["itype"])
    if d["cont"] in ("frame", "array"):
        cols = [gen.item(i, d["itype"]) for i in sorted({i for r in d["rows"] for i in r[1]})]
        X = pd.DataFrame([[int(c in set(x)) for c in cols] for x in rows], columns=cols, index=_index(d, len(rows)))
        if d["cont"] == "array":
            X = X.values
        if d.get("y"):
            return (X, np.array([r[0] for r in d["rows"]]))
    else:
        X = gen.container(rows, d["cont"])
    if kind in ("slimclf", "mbdll"):
        return (X, np.array([r[0] for r in d["rows"]]))
    return (X,)


def _index(d, n):
    return pd.Index(["r%d" % (7 * i % n) for i in range(n)], name="row") if d.get("idx") and n % 7 else None


def bad_inputs(kind, how):
    G = nx.DiGraph()
    y = np.array([0, 1, 0])
    T = [[1, 2], [2, 3], [1, 2, 3]]
    if kind == "graph":
        if how == "none":
            return (None,)
        if how == "undirected":
            H = nx.Graph()
            H.add_node(1, label="x")
            H.add_edge(1, 2, label="a")
            return (H,)
        if how == "selfloop":
            G.add_node(1, label="x")
            G.add_edge(1, 1, label="a")
        return (G,)
    if kind == "periodic":
        if how == "list":
            return ([1, 2, 3],)
        if how == "none":
            return (None,)
        if how == "text-index":
            return (pd.Series(["a", "b", "a"], index=["x", "y", "z"]),)
        if how == "mixed-index":
            return (pd.Series(["a", "b", "a"], index=[1, "y", 3]),)
        if how == "one":
            return (pd.Series(["a"], index=[3]),)
        return (pd.Series([], dtype=object, index=pd.Index([], dtype="int64")),)
    if kind == "mdlp":
        X = np.array([[1.0, 2.0], [2.0, 1.0], [3.0, 5.0]])
        return {"no-y": (X, None), "float-y": (X, y * 0.5), "one-dim": (X[:, 0], y),
                "text": (np.array([["a", "b"], ["c", 1], ["d", 2]], dtype=object), y)}[how]
    if kind == "mbdll":
        return {"list": (T, y), "one-label": (pd.Series(T), y * 0), "three-labels": (pd.Series(T), np.array([0, 1, 2])),
                "ints": (pd.Series([1, 2, 3]), y)}[how]
    X = {"ints": [1, 2, 3], "none": None, "empty": [], "unhashable": [[[1], 2], [2, 3], [1]], "short-y": T,
         "mixed": [["a", 1], [1, "a"], ["b", 2]], "bad-class": [[1, 2], 7, [3]],
         "nanframe": pd.DataFrame({"a": [1.0, np.nan, 0], "b": [0, 1.0, 1]}),
         "objframe": pd.DataFrame({"a": ["u", "v", "w"], "b": [0, 1, 1]})}[how]
    if kind == "slimclf":
        return (X, y[:1] if how == "short-y" else y)
    return (X,)


def fit(est, kind, args):
    if kind == "graph":
        return est.fit(args[0], timeout=args[1] if len(args) > 1 else None)
    return est.fit(*args)


# -- queries ----------------------------------------------------------------------------------------------------------
def probes(kind, args):
    """[(name, callable(est))]: every question the fitted object answers, on its own training data."""
    q = []
    if kind in ("lcm", "lcmmax"):
        D = args[0]
        q.append(("transform", lambda e: e.transform(D)))
        q.append(("transform(tids)", lambda e: unordered(e.transform(D, return_tids=True, lexicographic_order=False))))
        q.append(("transform(max_length=2)", lambda e: e.transform(D, max_length=2)))
    elif kind in ("slim", "slimvec"):
        D = args[0]
        some = D.iloc[:2] if hasattr(D, "iloc") else D[:2]
        q.append(("sizes", lambda e: (float(e.data_size_), float(e.model_size_))))
        q.append(("codetable", lambda e: [(frozenset(k), v) for k, v in e.codetable_.items()]))
        if kind == "slim":
            q.append(("transform", lambda e: e.transform(D)))
            q.append(("transform(tids)", lambda e: unordered(e.transform(D, singletons=False, return_tids=True,
                                                                                          lexicographic_order=False))))
            q.append(("transform(null)", lambda e: e.transform(D, drop_null_usage=False)))
        else:
            q.append(("transform", lambda e: e.transform(D)))
            q.append(("transform(some)", lambda e: e.transform(some)))
        q.append(("cover", lambda e: e.cover(some)))
        q.append(("code_length", lambda e: e.get_code_length(D)))
        q.append(("decision", lambda e: e.decision_function(some)))
        q.append(("reconstruct", lambda e: e.reconstruct()))
        q.append(("supports", lambda e: [e.get_support(*k) for k in sorted(map(tuple, map(sorted, e.codetable_)), key=repr)[:6]]))
        q.append(("candidates", lambda e: sorted([(sorted(c), round(float(g), 6)) for c, g in e.generate_candidates()], key=repr)))
        q.append(("evaluate", lambda e: _evaluate(e)))
    elif kind == "slimclf":
        D = args[0]
        some = D.iloc[:3] if hasattr(D, "iloc") else D[:3]
        q.append(("predict", lambda e: e.predict(D)))
        q.append(("predict(some)", lambda e: e.predict(some)))
        q.append(("classes", lambda e: e.classes_))
        q.append(("models", lambda e: [[(frozenset(k), v) for k, v in m.codetable_.items()] for m in e.models_]))
    elif kind == "mbdll":
        q.append(("discover", lambda e: e.discover()))
        q.append(("discover(2)", lambda e: e.discover(min_size=2)))
        q.append(("borders", lambda e: e.borders_))
    elif kind == "mdlp":
        X = args[0]
        q.append(("cut_points", lambda e: e.cut_points_))
        q.append(("discover", lambda e: e.discover()))
        q.append(("transform", lambda e: e.transform(X)))
    elif kind == "periodic":
        q.append(("transform", lambda e: e.transform(None, dE_sum=False, chronological_order=False)))
        q.append(("transform(default)", lambda e: e.transform(None)))
        q.append(("reconstruct", lambda e: e.reconstruct()))
        q.append(("reconstruct(0)", lambda e: e.reconstruct([0], sort="construction_order") if len(e.transform(None)) else None))
        q.append(("draw", lambda e: e.draw_pattern(0).source if len(e.transform(None)) else None))
        q.append(("residuals", lambda e: e.get_residuals()))
        q.append(("residuals(0)", lambda e: e.get_residuals([0]) if len(e.transform(None)) else None))
    else:
        q.append(("patterns", lambda e: e.patterns()))
        q.append(("description_length", lambda e: e.description_length()))
        q.append(("initial_description_length", lambda e: e.initial_description_length()))
        q.append(("discover", lambda e: e.discover()))
    return q


def unordered(df):
    """Without lexicographic_order the order of the items inside an itemset is unspecified."""
    df = df.copy()
    df["itemset"] = [sorted(x, key=repr) for x in df["itemset"]]
    return df


def _evaluate(e):
    ks = sorted(map(tuple, map(sorted, e.codetable_)), key=repr)
    ks = [k for k in ks if type(k[0]) is type(ks[0][0])][:2]
    c = frozenset(ks[0]) | frozenset(ks[-1])
    d, m, u = e.evaluate(c)
    return (float(d), float(m), sorted(((sorted(k), len(v)) for k, v in u.items()), key=repr))


def answers(est, kind, args, rev=False):
    """Canonical answers to every probe (asked in reverse order if rev); an exception is an answer too."""
    out = []
    for name, fn in probes(kind, args)[::-1 if rev else 1]:
        try:
            out.append((name, canon(fn(est))))
        except Exception as e:
            out.append((name, ("exc", type(e).__name__)))
    return tuple(out[::-1] if rev else out)

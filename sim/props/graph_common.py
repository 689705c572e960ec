"""Oracle for GraphMDL models: the cover is recomputed from the data graph and the reported embeddings."""
from collections import Counter

from skmine.graph.graphmdl.code_table import CodeTable
from skmine.graph.graphmdl.code_table_row import CodeTableRow
from skmine.graph.graphmdl.label_codes import LabelCodes

from .. import gen
from ..seams import Paused


def table(m):
    ct = getattr(m, "_code_table", None)
    if not isinstance(ct, CodeTable):
        ct = [v for v in vars(m).values() if isinstance(v, CodeTable)][0]
    return ct


def canon(P):
    return (tuple(sorted((repr(n), tuple(sorted(gen.labels_of(d)))) for n, d in P.nodes(data=True))),
            tuple(sorted((repr(a), repr(b), d["label"]) for a, b, d in P.edges(data=True))))


def state(m):
    """What a user can see of the model, comparable between objects."""
    rows = [(canon(r.pattern()), r.pattern_usage(),
             sorted(repr(sorted(e.items(), key=repr)) for e, _ in r.used_embeddings())) for r in table(m).rows()]
    return (m.description_length(), m.initial_description_length(), rows, sorted(canon(p) for p in m.patterns()),
            sorted(table(m).singleton_code_length().items()))


def show(m):
    return [(canon(r.pattern()), r.pattern_usage()) for r in table(m).rows()]


class KeptRow(CodeTableRow):
    """A row that keeps the order in which the model found the embeddings: the greedy cover takes them in that order,
    and it depends on the order of vertices and edges in the model's own copy of the graph."""

    def set_embeddings(self, embeddings):
        def key(e):
            return repr(sorted(e.items(), key=repr))
        self.same = sorted(map(key, embeddings)) == sorted(map(key, self.kept))
        super().set_embeddings(list(self.kept))


def is_graph_labelled(G):
    return bool(G.edges) or any(gen.labels_of(d) for _, d in G.nodes(data=True))


def check_model(ctx, m, spec, what):
    """G is rebuilt from the plan so that nothing the code did to its own copy matters."""
    with Paused():
        G = gen.build_graph(spec)
        ct = table(m)
        ed, lb = Counter(), Counter()
        ge = Counter((a, b, d["label"]) for a, b, d in G.edges(data=True))
        for i, row in enumerate(ct.rows()):
            used = row.used_embeddings()
            ctx.check(len(used) == row.pattern_usage(), "usage", lambda: "%s: pattern %r has usage %r but %d used "
                      "embeddings" % (what, canon(row.pattern()), row.pattern_usage(), len(used)))
            for emb, ports in used:
                inv = {v: k for k, v in emb.items()}
                ctx.check(set(inv) == set(row.pattern().nodes()) and len(inv) == len(emb), "embedding",
                          lambda: "%s: embedding %r is not one of pattern %r" % (what, emb, canon(row.pattern())))
                for a, b, d in row.pattern().edges(data=True):
                    ed[(inv[a], inv[b], d["label"])] += 1
                for nd, d in row.pattern().nodes(data=True):
                    for lab in gen.labels_of(d):
                        ctx.check(lab in gen.labels_of(G.nodes[inv[nd]]), "embedding",
                                  lambda: "%s: embedding %r puts label %r where the graph has none" % (what, emb, lab))
                        lb[(inv[nd], lab)] += 1
        over = ed - ge
        ctx.check(not over, "cover", lambda: "%s: edges covered more than once, or not in the graph: %r" % (what, dict(over)))
        es = Counter()
        for k, c in (ge - ed).items():
            es[k[2]] += c
        vs = Counter(lab for nd, d in G.nodes(data=True) for lab in gen.labels_of(d) if (nd, lab) not in lb)
        rg = ct.rewritten_graph()
        got = Counter(d["label"] for _, d in rg.nodes(data=True) if d.get("is_singleton"))
        want = es + vs
        ctx.check(got == want, "cover", lambda: "%s: singletons reported %r, the edges and labels that no pattern "
                  "covers are %r" % (what, dict(got), dict(want)))
        ctx.check(set(ct.singleton_code_length()) == set(want), "cover", lambda: "%s: singletons in the table %r, "
                  "needed %r" % (what, sorted(ct.singleton_code_length()), sorted(want)))
        emb_nodes = sum(1 for _, d in rg.nodes(data=True) if d.get("is_Pattern") and not d.get("is_singleton"))
        ctx.check(emb_nodes == sum(r.pattern_usage() for r in ct.rows()), "cover",
                  lambda: "%s: the rewritten graph has %d embeddings, the table %d" % (
                      what, emb_nodes, sum(r.pattern_usage() for r in ct.rows())))
        # the rewritten graph ties every embedding to the data vertices it shares with the others
        wired = Counter()
        for row in ct.rows():
            for emb, ports in row.used_embeddings():
                inv = {v: k for k, v in emb.items()}
                mine = Counter((inv[a], inv[b], d["label"]) for a, b, d in row.pattern().edges(data=True))
                shared = {v for v in emb if any(x not in mine for x in ge if v in x[:2])}
                pv = {v for v, _ in ports}
                ctx.check(shared <= pv, "ports", lambda: "%s: embedding %r of %r shares vertices %r with others, its "
                          "ports are %r" % (what, emb, canon(row.pattern()), shared, sorted(ports, key=repr)))
                ctx.check(all(emb.get(v) == n for v, n in ports), "ports", lambda: "%s: ports %r of embedding %r" % (
                    what, sorted(ports, key=repr), emb))
                wired[(None, tuple(sorted(("v%s" % n, str(v)) for v, n in ports)))] += 1
        for (a, b, lab), c in (ge - ed).items():
            wired[(lab, (("v1", str(a)), ("v2", str(b))))] += c
        for nd, d in G.nodes(data=True):
            for lab in gen.labels_of(d):
                if (nd, lab) not in lb:
                    wired[(lab, (("v1", str(nd)),))] += 1
        got = Counter()
        for n, d in rg.nodes(data=True):
            if d.get("is_Pattern"):
                got[(d["label"] if d.get("is_singleton") else None,
                     tuple(sorted((e["label"], str(rg.nodes[t]["label"])) for _, t, e in rg.out_edges(n, data=True)
                                  if not rg.nodes[t].get("is_Pattern"))))] += 1
        ctx.check(got == wired, "ports", lambda: "%s: the rewritten graph has embeddings %r, those in use are %r" % (
            what, dict(got - wired), dict(wired - got)))
        plabs = [str(d["label"]) for _, d in rg.nodes(data=True) if not d.get("is_Pattern")]
        ctx.check(len(set(plabs)) == len(plabs), "ports", lambda: "%s: the rewritten graph has ports %r" % (
            what, sorted(plabs)))
        # reported patterns: exactly those in use
        ctx.count("calls")
        rep = Counter(canon(p) for p in m.patterns())
        use = Counter(canon(r.pattern()) for r in ct.rows() if r.pattern_usage())
        for lab in vs:
            use[((("1", (lab,)),), ())] += 1
        for lab in es:
            use[((("1", ()), ("2", ())), (("1", "2", lab),))] += 1
        ctx.check(rep == use, "patterns", lambda: "%s: patterns() gives %r, in use are %r" % (what, dict(rep), dict(use)))
        # description length afresh
        c = CodeTable(LabelCodes(G), G)
        for r in ct.rows():
            n = KeptRow(r.pattern())
            n.kept = list(r.embeddings())
            n.arrival_number = r.arrival_number
            c.add_row(n)
            ctx.check(n.same, "embeddings", lambda: "%s: the embeddings of pattern %r are not those the graph has" % (
                what, canon(r.pattern())))
        c.cover()
        dl = c.compute_total_description_length()
        ctx.check(abs(dl - m.description_length()) < 1e-6, "length", lambda: "%s: description length %r, covering the "
                  "graph afresh with the same patterns gives %r" % (what, m.description_length(), dl))
        c0 = CodeTable(LabelCodes(G), G)
        c0.cover()
        d0 = c0.compute_total_description_length()
        ctx.check(abs(d0 - m.initial_description_length()) < 1e-6, "length", lambda: "%s: initial description length "
                  "%r, that of the singleton-only table is %r" % (what, m.initial_description_length(), d0))
        ctx.check(m.description_length() <= d0 + 1e-9, "length", lambda: "%s: description length %r is worse than "
                  "the initial %r" % (what, m.description_length(), d0))

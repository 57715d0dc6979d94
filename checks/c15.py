"""C15 roots, leaves and nodes"""
from checks.common import *

FUNCTIONS = "data.AdjacencyList.nodes, roots, leaves, _edge_relabel, _sparse_signed, _sparse_unsigned, to_sparse, data.Graphicle.nodes"
BOUNDS = "edge lists of 0 to 3 edges with any int32 vertex ids (4 edges thorough; 4 and 5 edges with ids in -2..2), read in every order of the properties"
ORDERS = ["rln", "lrn", "nlr", "mlr", "dnrl"]


def adjacency(S, e, lo, hi):
    es = [[S.int("s%d" % i, lo, hi), S.int("d%d" % i, lo, hi)] for i in range(e)]
    a = S.arr(es, "<i4")
    if not e:
        a = a.reshape(0, 2)
    return S.gcl.AdjacencyList(a), es


def topology(S, e, lo, hi, order, weighted=False, via="adj"):
    g, es = adjacency(S, e, lo, hi)
    if weighted:
        g = S.gcl.AdjacencyList(g._data, S.arr(weights(S, e), "<f8"))
    holder = S.gcl.Graphicle(adj=g) if via == "graphicle" else g
    for o in order:
        if o == "r":
            r = g.roots
            S.check(type(r) is S.gcl.MaskArray, "roots is a mask")
            S.same(r.data, [S.all([S.Not(s == d) for _, d in es]) for s, _ in es], "roots: source is nobody's destination")
        elif o == "l":
            r = g.leaves
            S.check(type(r) is S.gcl.MaskArray, "leaves is a mask")
            S.same(r.data, [S.all([S.Not(d == s) for s, _ in es]) for _, d in es], "leaves: destination is nobody's source")
        elif o == "n":
            ns = S.lst(holder.nodes)
            ids = [x for row in es for x in row]
            for x in ids:
                S.check(S.any([x == y for y in ns]), "every id is listed")
            for i, y in enumerate(ns):
                S.check(S.any([x == y for x in ids]), "only ids are listed")
                if i:
                    a, b = ns[i - 1], y
                    S.check(S.ite(a < 0, -a, a) <= S.ite(b < 0, -b, b), "ascending magnitude")
                for z in ns[:i]:
                    S.check(S.Not(y == z), "listed once")
        elif o == "m":
            g.matrix
        elif o == "d":
            S.gcl.select.vertex_descendants(g, 1)
    S.same(g._data, es if e else [], "edges left as they were")


def tasks(tier):
    q = tier == "quick"
    out = []
    I = (-2**31, 2**31 - 1)
    for e in (0, 1):
        for i, o in enumerate(ORDERS):
            out.append(("topology", dict(e=e, lo=I[0], hi=I[1], order=o, weighted=bool(i % 2), via="graphicle" if i == 2 else "adj")))
    for o in ("rl", "lr", "mlr", "drl", "mrl"):
        out.append(("topology", dict(e=2, lo=I[0], hi=I[1], order=o, weighted=o[0] == "m"), 2))
    out.append(("topology", dict(e=2, lo=I[0], hi=I[1], order="n", via="graphicle"), 3))
    out.append(("topology", dict(e=2, lo=-3, hi=3, order="rnl"), 3))
    for o in ("rl", "lr"):
        out.append(("topology", dict(e=3, lo=I[0], hi=I[1], order=o), 6))
    out.append(("topology", dict(e=3, lo=-2, hi=2, order="mldr"), 6))
    out.append(("topology", dict(e=4, lo=-1, hi=2, order="rl"), 10))
    if not q:
        out.append(("topology", dict(e=3, lo=I[0], hi=I[1], order="n"), 20))
        out.append(("topology", dict(e=4, lo=I[0], hi=I[1], order="rl"), 40))
        out.append(("topology", dict(e=4, lo=-2, hi=2, order="dlr"), 20))
        out.append(("topology", dict(e=5, lo=-2, hi=2, order="rl"), 60))
    return out

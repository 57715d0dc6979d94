"""C17 descendants"""
from checks.common import *
from checks.c15 import adjacency

FUNCTIONS = "select.vertex_descendants, select.edge_descendants, data.AdjacencyList._sparse_signed, _sparse_csr, to_sparse"
BOUNDS = "any directed multigraph of 0 to 3 edges with any int32 vertex ids (cycles, self-loops, repeated edges), 4 edges with ids -2..2 (4 with any ids, 5 with ids -2..2 thorough); any queried vertex or edge"
I = (-2**31, 2**31 - 1)


def reached(S, es, v):
    """for each edge: can it be reached from vertex v"""
    r = [s == v for s, _ in es]
    none = S.all([S.Not(x) for x in r])
    for _ in range(len(es) - 1):
        r = [S.any([r[k]] + [S.all([r[j], es[j][1] == es[k][0]]) for j in range(len(es)) if j != k]) for k in range(len(es))]
    return [S.any([a, S.all([none, d == v])]) for a, (_, d) in zip(r, es)]


def vertex(S, e, lo, hi, twice=False, weighted=False):
    g, es = adjacency(S, e, lo, hi)
    if weighted:
        w = weights(S, e)
        g = S.gcl.AdjacencyList(g._data, S.arr(w, "<f8"))
    v = S.int("v", lo, hi)
    m = S.gcl.select.vertex_descendants(g, v)
    S.check(type(m) is S.gcl.MaskArray, "a mask")
    want = reached(S, es, v)
    S.same(m.data, want, "reachable edges")
    S.same(g._data, es if e else [], "graph left as it was")
    if weighted:
        S.same(g.weights, w, "weights left as they were")
    if twice:
        # what was returned belongs to the caller, and asking again or for another vertex is no different
        m._data[...] = True
        u = S.int("u", lo, hi)
        S.same(S.gcl.select.vertex_descendants(g, u).data, reached(S, es, u), "reachable edges of another vertex")
        S.same(S.gcl.select.vertex_descendants(g, v).data, want, "reachable edges, asked again")
        S.same(g._data, es if e else [], "graph left as it was")


def edge(S, e, lo, hi, pick):
    g, es = adjacency(S, e, lo, hi)
    if pick is None:
        pair = (S.int("a", lo, hi), S.int("b", lo, hi))
    else:
        pair = tuple(es[pick])
    m = S.gcl.select.edge_descendants(g, S.gcl.VertexPair(*pair) if hasattr(S.gcl, "VertexPair") else pair)
    S.check(type(m) is S.gcl.MaskArray, "a mask")
    want = [S.any([a, S.all([s == pair[0], d == pair[1]])]) for a, (s, d) in zip(reached(S, es, pair[1]), es)]
    S.same(m.data, want, "the edge and what follows")
    S.same(g._data, es if e else [], "graph left as it was")


TOPO = {
    "chain": [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)],
    "chain_back": [(4, 5), (3, 4), (2, 3), (1, 2), (0, 1)],
    "diamond": [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4)],
    "cycle_tail": [(0, 1), (1, 2), (2, 0), (2, 3), (3, 4)],
    "disjoint": [(0, 1), (1, 2), (3, 4), (4, 5), (1, 2)],
    "tree": [(0, 1), (1, 2), (1, 3), (2, 4), (2, 5), (3, 6)],
    "parallel": [(0, 1), (0, 1), (1, 2), (1, 2), (2, 2)],
    "merge": [(0, 2), (1, 2), (2, 3), (2, 4), (5, 4)],
    "eight": [(0, 1), (1, 0), (1, 2), (2, 1), (2, 3)],
}


def topology(S, topo, lo=-2**31, hi=2**31 - 1, signs=None):
    """a fixed shape, any ids"""
    t = TOPO[topo]
    n = 1 + max(max(p) for p in t)
    ids = [S.int("id%d" % i, lo, hi) for i in range(n)]
    for i in range(n):
        for j in range(i):
            S.assume(S.Not(ids[i] == ids[j]))
    es = [[ids[a], ids[b]] for a, b in t]
    g = S.gcl.AdjacencyList(S.arr(es, "<i4"))
    at = S.choose("from", range(n))
    m = S.gcl.select.vertex_descendants(g, ids[at])
    r = [a == at for a, _ in t]
    for _ in t:
        r = [r[k] or any(r[j] and t[j][1] == t[k][0] for j in range(len(t))) for k in range(len(t))]
    if not any(r):
        r = [b == at for _, b in t]
    S.same(m.data, r, "reachable edges of a %s" % topo)
    S.same(g._data, es, "graph left as it was")


def tasks(tier):
    q = tier == "quick"
    out = []
    for e in (1, 2):
        out.append(("vertex", dict(e=e, lo=I[0], hi=I[1], twice=True, weighted=e == 2), e * e))
        out.append(("edge", dict(e=e, lo=I[0], hi=I[1], pick=None)))
        for p in range(e):
            out.append(("edge", dict(e=e, lo=I[0], hi=I[1], pick=p)))
    out.append(("vertex", dict(e=3, lo=I[0], hi=I[1]), 5))
    out.append(("vertex", dict(e=3, lo=-1, hi=2, twice=True), 8))
    for p in (0, 2):
        out.append(("edge", dict(e=3, lo=-2, hi=2, pick=p), 3))
    out.append(("edge", dict(e=3, lo=I[0], hi=I[1], pick=1), 5))
    out.append(("vertex", dict(e=4, lo=0, hi=2), 10))
    for t in TOPO:
        if not q:
            out.append(("topology", dict(topo=t), 20))
        out.append(("topology", dict(topo=t, lo=-4, hi=4) if q else dict(topo=t, lo=-6, hi=6), 5))
    if not q:
        out.append(("vertex", dict(e=4, lo=I[0], hi=I[1]), 30))
        out.append(("vertex", dict(e=5, lo=-2, hi=2), 60))
        out.append(("edge", dict(e=4, lo=-2, hi=2, pick=1), 30))
        out.append(("edge", dict(e=4, lo=-2, hi=2, pick=None), 30))
    return out

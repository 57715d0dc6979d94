"""C16 adjacency matrices and edge lists"""
from checks.common import *
from checks.c15 import adjacency

FUNCTIONS = "data.AdjacencyList.matrix, from_matrix, to_sparse, _edge_relabel, _sparse_signed, _sparse_unsigned, _sparse_weighted"
BOUNDS = "edge lists of 0 to 3 edges (4 thorough) with any int32 vertex ids and any weights; matrices up to 2x2 with any entries, 3x3 with entries -1..1 (thorough: any)"
I = (-2**31, 2**31 - 1)


def rank(S, ids, x):
    """number of different ids below x"""
    return S.isum([S.all([y < x] + [S.Not(y == z) for z in ids[:p]]) for p, y in enumerate(ids)])


def distinct(S, ids):
    return S.isum([S.all([S.Not(y == z) for z in ids[:p]]) for p, y in enumerate(ids)])


def matrix(S, e, lo, hi, weighted, before=""):
    g, es = adjacency(S, e, lo, hi)
    w = None
    if weighted:
        w = weights(S, e)
        g = S.gcl.AdjacencyList(g._data, S.arr(w, "<f8"))
    for b in before:
        if b == "m":
            g.matrix
        elif b == "r":
            g.roots
        elif b == "s":
            g.to_sparse()
    m = g.matrix
    ids = [x for r in es for x in r]
    n = len(m)
    S.check(tuple(m.shape) == (n, n), "square")
    S.check(distinct(S, ids) == n, "one row for every vertex id")
    ranks = [(rank(S, ids, s), rank(S, ids, d)) for s, d in es]
    m = S.lst(m)
    for i in range(n):
        for j in range(n):
            here = [S.all([a == i, b == j]) for a, b in ranks]
            if weighted:
                want = 0.0
                for h, x in zip(here, w):
                    want = want + S.ite(h, x, 0.0)
                S.close(m[i][j], want, "sum of the weights of the edges")
            else:
                S.check(m[i][j] == S.isum(here), "number of edges")
    S.same(g._data, es if e else [], "edges left as they were")
    if weighted:
        S.same(g.weights, w, "weights left as they were")


def new_weights(S, e, lo, hi, first, read, second):
    """the matrix follows weights which are set later"""
    g, es = adjacency(S, e, lo, hi)
    if first:
        g = S.gcl.AdjacencyList(g._data, S.arr(weights(S, e, "u"), "<f8"))
    for b in read:
        getattr(g, b)
    w = weights(S, e) if second else []
    g.weights = S.arr(w, "<f8")
    m = g.matrix
    ids = [x for r in es for x in r]
    ranks = [(rank(S, ids, s), rank(S, ids, d)) for s, d in es]
    m = S.lst(m)
    for i in range(len(m)):
        for j in range(len(m)):
            here = [S.all([a == i, b == j]) for a, b in ranks]
            if second:
                want = 0.0
                for h, x in zip(here, w):
                    want = want + S.ite(h, x, 0.0)
                S.close(m[i][j], want, "sum of the weights of the edges")
            else:
                S.check(m[i][j] == S.isum(here), "number of edges")
    S.same(g._data, es if e else [], "edges left as they were")


def sparse(S, e, lo, hi, data):
    g, es = adjacency(S, e, lo, hi)
    ids = [x for r in es for x in r]
    if data == "default":
        sp = g.to_sparse()
        want = [d > 0 for _, d in es]
    elif data == "float":
        want = [S.float("v%d" % i) for i in range(e)]
        sp = g.to_sparse(S.arr(want, "<f8"))
    else:
        want = S.bools("v", e)
        sp = g.to_sparse(data=S.arr(want, "<?"))
    n = sp.shape[0]
    S.check(tuple(sp.shape) == (n, n), "square")
    S.check(distinct(S, ids) == n, "one row for every vertex id")
    r, c, d = S.lst(sp.row), S.lst(sp.col), S.lst(sp.data)
    S.check(len(r) == len(c) == len(d) == e, "one entry per edge")
    for k, (s, t) in enumerate(es):
        S.check(r[k] == rank(S, ids, s), "row of the source")
        S.check(c[k] == rank(S, ids, t), "column of the destination")
    S.same(d, want, "data in edge order")


def from_matrix(S, n, kind, weighted, self_loop, lo=-2, hi=2, args="named"):
    if kind == "float":
        m = [[S.float("m%d%d" % (i, j)) for j in range(n)] for i in range(n)]
    elif kind == "bool":
        m = [S.bools("m%d" % i, n) for i in range(n)]
    else:
        m = [S.ints("m%d_" % i, n, lo, hi) for i in range(n)]
    a = S.arr(m, {"float": "<f8", "bool": "<?", "int": "<i4"}[kind])
    if args == "default":
        g = S.gcl.AdjacencyList.from_matrix(a)
    else:
        g = S.gcl.AdjacencyList.from_matrix(a, weighted=weighted, self_loop=self_loop)
    S.check(type(g) is S.gcl.AdjacencyList, "an adjacency list")
    es, w = S.lst(g._data), S.lst(g.weights)
    S.check(len(w) == (len(es) if weighted else 0), "one weight per edge if asked")
    for i in range(n):
        for j in range(n):
            at = [k for k, x in enumerate(es) if S.truth(S.all([x[0] == i, x[1] == j]))]
            nz = m[i][j] if kind == "bool" else S.Not(m[i][j] == 0)
            if self_loop and i == j:
                S.check(len(at) == 1, "one self-loop for every node")
            else:
                S.check(len(at) <= 1, "listed once")
                S.check(S.iff(nz, len(at) == 1), "exactly the non-zero entries")
            if weighted and at:
                S.check(w[at[0]] == (S.ite(m[i][j], 1.0, 0.0) if kind == "bool" else m[i][j]), "value as weight")
    for x in es:
        S.check(S.all([x[0] >= 0, x[0] < n, x[1] >= 0, x[1] < n]), "vertex ids number the nodes")
    S.same(a, m, "matrix left as it was")


def tasks(tier):
    q = tier == "quick"
    out = []
    for w in (False, True):
        for e in (0, 1, 2):
            out.append(("matrix", dict(e=e, lo=I[0], hi=I[1], weighted=w and e > 0, before="rms" if e == 1 else "")))
        out.append(("matrix", dict(e=2, lo=-2, hi=2, weighted=w, before="mr")))
        out.append(("matrix", dict(e=3, lo=I[0], hi=I[1], weighted=w), 6))
        if not q:
            out.append(("matrix", dict(e=3, lo=-3, hi=3, weighted=w, before="rsm"), 12))
            out.append(("matrix", dict(e=4, lo=-2, hi=1, weighted=w), 30))
    for first in (False, True):
        for second in (False, True):
            for e in (1, 2) if q else (1, 2, 3):
                out.append(("new_weights", dict(e=e, lo=I[0], hi=I[1], first=first, read=["matrix", "roots"], second=second)))
    for d in ("default", "float", "bool"):
        for e in (1, 2, 3) if q else (1, 2, 3, 4):
            out.append(("sparse", dict(e=e, lo=I[0], hi=I[1], data=d), 1 if e < 3 else 20 if e > 3 else 5))
    for kind in ("int", "float", "bool"):
        for wt in (False, True):
            for sl in (False, True):
                for n in (1, 2):
                    out.append(("from_matrix", dict(n=n, kind=kind, weighted=wt, self_loop=sl)))
                if kind == "bool" and q:
                    out.append(("from_matrix", dict(n=3, kind=kind, weighted=wt, self_loop=sl), 4))
                if not q:
                    out.append(("from_matrix", dict(n=3, kind=kind, weighted=wt, self_loop=sl), 8))
    out.append(("from_matrix", dict(n=2, kind="int", weighted=False, self_loop=False, args="default")))
    return out

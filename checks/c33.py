"""C33 affinity graphs"""
import math
import warnings
from checks.common import *

FUNCTIONS = "matrix.cut_adj, knn_adj, fc_adj; calculate.cluster_coeff_distbn, _clust_coeffs"
BOUNDS = "cut_adj: matrices of 0x0 to 3x3 of any entries in [-64, 64], any cut; knn_adj: up to 4x4 (5x5 thorough) with up to 5 unknown entries, others fixed, no ties within a row, all k; fc_adj: 0 to 4 nodes; clustering coefficients: up to 5 particles at fixed places and any radius, or up to 4 in line at any places"
FIXM = [[0.0, 2.5, 7.25, 1.5, 4.0], [2.5, 0.0, 3.75, 9.5, 0.5], [7.25, 3.75, 0.0, 5.25, 6.0], [1.5, 9.5, 5.25, 0.0, 8.0], [4.0, 0.5, 6.0, 8.0, 0.0]]


def cut(S, n, m, mode, loop, weighted, how="kw"):
    v = [S.floats("a%d" % i, m) for i in range(n)]
    c = S.float("cut")
    A = S.arr(v, "<f8").reshape(n, m)
    f = S.gcl.matrix.cut_adj
    if how == "default":
        out = f(A, c)
    elif how == "pos":
        out = f(A, c, mode, loop, weighted)
    else:
        out = f(A, cut=c, mode=mode, self_loop=loop, weighted=weighted)
    S.check(out.shape == (n, m), "shape")
    S.check(out.dtype.kind == ("f" if weighted else "b"), "numbers if weighted, else marks")
    for i in range(n):
        for j in range(m):
            S.gap(v[i][j], c)
            inside = v[i][j] < c if mode == "max" else v[i][j] > c
            if i == j:
                if loop:
                    S.check(out[i, j] != 0, "self-edge")
                else:
                    S.check(out[i, j] == 0, "no self-edge")
            elif weighted:
                S.close(out[i, j], S.ite(inside, v[i][j], 0.0), "affinity within the cut")
            else:
                S.check(S.iff(out[i, j], inside), "linked if and only if within the cut")
    S.same(A, v if n and m else A, "affinities left as they were")


def cut_errors(S):
    A = S.arr([[0.0, 1.0], [1.0, 0.0]], "<f8")
    f = S.gcl.matrix.cut_adj
    S.raises(ValueError, lambda: f(A, 1.0, "middle"), "unknown mode")
    S.raises(ValueError, lambda: f(A, 1.0, weighted=2), "weighted no boolean")
    S.raises(ValueError, lambda: S.gcl.matrix.knn_adj(A, 1, weighted=True, dtype="<i4"), "weights as integers")


def knn(S, n, k, unknown, loop=False, weighted=False, row=True, dtype=None, asym=False, how="kw"):
    """unknown: positions (i, j) of unknown affinities (both halves unless asym)"""
    v = [r[:n] for r in FIXM[:n]]
    for i, j in unknown:
        v[i][j] = S.float("d%d%d" % (i, j), 0.125, 64)
        if not asym:
            v[j][i] = v[i][j]
    if asym:
        for i in range(n):
            for j in range(i):
                if (i, j) not in unknown and (i + j) % 2:
                    v[i][j] = v[i][j] + 0.25
    for i in range(n):
        for a, b in itertools.combinations([j for j in range(n) if j != i], 2):
            S.gap(v[i][a], v[i][b])
    A = S.arr(v, "<f8")
    f = S.gcl.matrix.knn_adj
    if how == "default":
        out = f(A, k)
    elif how == "pos":
        out = f(A, k, loop, weighted, row, dtype)
    else:
        kw = {} if dtype is None else dict(dtype=dtype)
        out = f(A, k=k, self_loop=loop, weighted=weighted, row=row, **kw)
    S.check(out.shape == (n, n), "shape")
    if not weighted:
        S.check(out.dtype.kind == "b", "marks")
    elif dtype is None:
        S.check(out.dtype == A.dtype, "type of the affinities")
    else:
        S.check(out.dtype == S.np.dtype(dtype), "type asked for")
    others = k - 1 if loop else k
    for i in range(n):
        for j in range(n):
            e = out[i, j] if row else out[j, i]
            if i == j:
                if not loop:
                    S.check(e == 0, "no self-edge")
                elif not weighted:
                    S.check(e, "self-edge")
                continue
            nearer = S.isum([v[i][l] < v[i][j] for l in range(n) if l not in (i, j)])
            if weighted:
                S.close(e, S.ite(nearer < others, v[i][j], 0.0), "affinity of the nearest, no other edge", 1e-5)
            else:
                S.check(S.iff(e, nearer < others), "linked to the nearest and no other")
    S.same(A, v, "affinities left as they were")


def fc(S, n, loop, how):
    f = S.gcl.matrix.fc_adj
    out = f(n) if how == "default" else f(n, loop) if how == "bool" else f(n, self_loop=loop, dtype=how)
    S.check(out.shape == (n, n), "shape")
    S.check(out.dtype == S.np.dtype("<?" if how in ("default", "bool") else how), "type asked for")
    for i in range(n):
        for j in range(n):
            S.check(out[i, j] == (1 if i != j or loop else 0), "every pair linked")


def coefficients(S, near, out, n, msg):
    S.check(len(out) == n, msg + ": one for each particle")
    for i in range(n):
        nb = [near(i, j) for j in range(n)]
        k = S.isum([nb[j] for j in range(n) if j != i])
        links = S.isum([S.all([nb[a], nb[b], near(a, b)]) for a, b in itertools.combinations([j for j in range(n) if j != i], 2)])
        if S.truth(k < 2):
            S.check(out[i] == 0, msg + ": none with fewer than two neighbours")
        else:
            # integers up to 10: exact enough in single precision
            S.close(out[i] * (k * (k - 1)), 2 * links, msg + ": linked pairs among pairs of neighbours", 1e-4)


PLACES = {"square": [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (1.0, 1.25)], "kite": [(0.0, 3.0), (0.5, -3.0), (1.5, 3.0), (0.6, 2.5), (-0.5, -2.5)],
          "three": [(0.0, 0.0), (0.0, 2.0), (1.0, 1.0)], "two": [(0.0, 0.0), (0.5, 0.5)], "one": [(0.25, 1.0)], "none": []}


def placed(S, places, threads, how):
    pts = PLACES[places]
    n = len(pts)
    # heavy particles: the place is that of the rapidity or of the pseudorapidity, as asked for
    size = 3 if how == "true" else 1
    vs = [[(2 + i) * math.cos(f), (2 + i) * math.sin(f), size * (2 + i) * math.sinh(y), 3 * (2 + i) * math.cosh(y)] for i, (y, f) in enumerate(pts)]
    p = S.gcl.MomentumArray(S.arr(vs, "<f8").reshape(-1, 4))
    r = S.float("r", 0, 8)

    def dist(i, j):
        d = abs(pts[i][1] - pts[j][1])
        return math.hypot(pts[i][0] - pts[j][0], min(d, 2 * math.pi - d))
    for i, j in itertools.combinations(range(n), 2):
        S.gap(dist(i, j), r)
    f = S.gcl.calculate.cluster_coeff_distbn
    out = f(p, r) if how == "default" else f(p, r, pseudo=how == "pseudo", threads=threads)
    coefficients(S, lambda i, j: dist(i, j) < r, out, n, "coefficient")
    S.same(p._data, vs if n else p._data, "momenta left as they were")


def in_line(S, n, pseudo):
    y = [S.logvar("y%d" % i, 0.05, 20) for i in range(n)]
    rho = S.logvar("r", 1.01, 20)
    w = [S.exp(v) for v in y]
    vs = [[5.0 if pseudo else 3.0, 0.0, 2.5 * (u - 1 / u), 60.0 if pseudo else 2.5 * (u + 1 / u)] for u in w]
    R = S.exp(rho)

    def near(i, j):
        q = S.ite(w[i] > w[j], w[i] / w[j], w[j] / w[i])
        return q < R
    for i, j in itertools.combinations(range(n), 2):
        S.gap(S.ite(w[i] > w[j], w[i] / w[j], w[j] / w[i]), R, 1e-2)
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    out = S.gcl.calculate.cluster_coeff_distbn(p, rho, pseudo)
    coefficients(S, near, out, n, "coefficient")


def tasks(tier):
    q = tier == "quick"
    out = [("cut_errors", {})]
    for mode in ("max", "min"):
        for loop in (True, False):
            for w in (True, False):
                out.append(("cut", dict(n=2, m=2, mode=mode, loop=loop, weighted=w), 2))
                out.append(("cut", dict(n=3, m=3, mode=mode, loop=loop, weighted=w, how="pos"), 4))
    out += [("cut", dict(n=2, m=2, mode="max", loop=False, weighted=False, how="default")), ("cut", dict(n=2, m=3, mode="min", loop=False, weighted=True)),
            ("cut", dict(n=0, m=0, mode="max", loop=False, weighted=False)), ("cut", dict(n=1, m=1, mode="max", loop=True, weighted=True))]
    sets = [(2, [(0, 1)]), (3, [(0, 1), (1, 2)]), (4, [(0, 1), (2, 3)])] if q else [(2, [(0, 1)]), (3, [(0, 1), (1, 2), (0, 2)]), (4, [(0, 1), (2, 3), (1, 2)]), (5, [(0, 4), (1, 2)])]
    for n, un in sets:
        for k in range(1, n):
            for w in (True, False):
                for row in (True, False):
                    out.append(("knn", dict(n=n, k=k, unknown=un, weighted=w, row=row), n))
            out.append(("knn", dict(n=n, k=k + 1, unknown=un, loop=True, weighted=False), n))
            out.append(("knn", dict(n=n, k=k, unknown=un, loop=True, weighted=True, row=k % 2 == 0, how="pos"), n))
    out += [("knn", dict(n=3, k=1, unknown=[(0, 1), (1, 2)], how="default"), 3), ("knn", dict(n=3, k=2, unknown=[(0, 1)], weighted=True, dtype="<f4"), 3),
            ("knn", dict(n=3, k=1, unknown=[(0, 1), (1, 0), (2, 1)], asym=True), 6), ("knn", dict(n=4, k=2, unknown=[(0, 1), (3, 1), (2, 1)], asym=True), 10),
            ("knn", dict(n=4, k=3, unknown=[(1, 0), (3, 2)], asym=True, weighted=True), 10), ("knn", dict(n=1, k=1, unknown=[], loop=True))]
    for n in range(5):
        for loop in (True, False):
            out.append(("fc", dict(n=n, loop=loop, how="<f8" if n % 2 else "bool")))
    out.append(("fc", dict(n=3, loop=False, how="default")))
    for pl in PLACES:
        for t, how in [(1, "default"), (2, "pseudo"), (8, "true")]:
            out.append(("placed", dict(places=pl, threads=t, how=how), 1 + 2 * len(PLACES[pl])))
    for n in (2, 3) if q else (2, 3, 4):
        for ps in (True, False):
            out.append(("in_line", dict(n=n, pseudo=ps), n * n))
    return out

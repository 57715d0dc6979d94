"""C44 results follow the particles, whatever their order and labels"""
import itertools
import math
import warnings
from checks.common import *
from checks.c43 import value, quiet

FUNCTIONS = "MomentumArray coordinates, shifts, delta_R; PdgArray attributes and masks; StatusArray classes; AdjacencyList roots, leaves, nodes; select: descendants, hierarchy, partition, singlets, clusters, tags, pruning; calculate: combined_mass, centroids, C-parameter, thrust, spherocity, Jaccard distance, clustering coefficients; matrix: cut_adj, knn_adj, distances"
BOUNDS = "3 momenta, one of them of unknown size, azimuth, rapidity and energy (for totals: of unknown size), under every order, 5 selections and any mask; 3 codes and statuses of any value; events of 7 and 9 particles with unknown final flags under 5 orders of the rows and 5 relabellings of the vertices (negative, reversed, sparse); groups of 3 masks in every order"

FIX = [[-1.5, 2.0, -6.0, 9.0], [8.0, 6.0, 0.0, 12.0]]
CAND = [[4.0, 3.0, 1.0, 8.0], [0.0, -5.0, 2.5, 7.0]]
PERMS = [list(p) for p in itertools.permutations(range(3))]
SELS = [[], [1], [2, 0], [0, 0, 2], [2, 1, 1, 0]]


def vec(S, name):
    t, f, w, e = S.float(name + "_t", 0.2, 64), S.angle(name + "_f"), S.exp(S.logvar(name + "_eta", 0.05, 20)), S.float(name + "_e", 0.1, 640)
    z = t * (w - 1 / w) / 2
    S.assume(S.all([2 * e * w - t * (w * w - 1) > 0.2 * w, 2 * e * w + t * (w * w - 1) > 0.2 * w]))
    return [t * S.cos(f), t * S.sin(f), z, e]


def slim(S, name):
    """only the size of the transverse part and of the energy unknown"""
    t, e = S.float(name + "_t", 0.25, 16), S.float(name + "_e", 60, 640)
    return [0.75 * t, -1.0 * t, 3.0, e]


SLIM = {"theta", "mass", "mass_t", "to_others", "parton_hadron", "delta_R", "delta_R rapidity", "delta_R_aff", "rapidity"}


def sized(S, name):
    t = S.float(name, 0.5, 32)
    return [t * c for c in (0.75, -1.0, 0.5, 2.0)]


def take(S, x, sel):
    return [x[i] for i in sel]


EACH = {
    "pt": lambda S, p: p.pt, "eta": lambda S, p: p.eta, "rapidity": lambda S, p: p.rapidity, "phi": lambda S, p: p.phi, "theta": lambda S, p: p.theta, "mass": lambda S, p: p.mass, "mass_t": lambda S, p: p.mass_t,
    "components": lambda S, p: p, "shift_phi": lambda S, p: p.shift_phi(0.7), "shift_rapidity": lambda S, p: p.shift_rapidity(-0.4),
    "to_others": lambda S, p: p.delta_R(S.gcl.MomentumArray(S.arr(CAND, "<f8")), pseudo=False), "parton_hadron": lambda S, p: S.gcl.matrix.parton_hadron_distance(p, S.gcl.MomentumArray(S.arr(CAND, "<f8")), 1.0),
    "double": lambda S, p: p * 2.0, "sum of components": lambda S, p: S.np.sum(p, axis=1),
}
PAIRS = {
    "delta_R": lambda S, p: p.delta_R(p), "delta_R rapidity": lambda S, p: p.delta_R(p, pseudo=False), "delta_R_aff": lambda S, p: S.gcl.matrix.delta_R_aff(p),
}


def lists(S, x):
    v = value(S, x)
    return v[1] if v and isinstance(v[0], str) else v


def each(S, what, kind):
    """one value per particle"""
    f = EACH[what]
    P = [(slim if what in SLIM else vec)(S, "a")] + [list(x) for x in FIX]
    p = S.gcl.MomentumArray(S.arr(P, "<f8"))
    whole = lists(S, quiet(lambda: f(S, p)))
    if kind == "mask":
        m = S.bools("m", 3)
        sub = p[S.gcl.MaskArray(S.arr(m, "<?"))]
        sel = [i for i in range(3) if S.truth(m[i])]
    else:
        sel = S.choose("sel", PERMS if kind == "order" else SELS)
        sub = p[list(sel)] if sel else p[:0]
    got = lists(S, quiet(lambda: f(S, sub)))
    S.close(got, take(S, whole, sel), what + " of the selection")
    # one at a time
    if kind == "order":
        for i in range(3):
            S.close(lists(S, quiet(lambda: f(S, p[i]))), [whole[i]], what + " of one")


def pairs(S, what):
    """one value per pair of particles"""
    f = PAIRS[what]
    P = [(slim if what in SLIM else vec)(S, "a")] + [list(x) for x in FIX]
    p = S.gcl.MomentumArray(S.arr(P, "<f8"))
    whole = S.lst(quiet(lambda: f(S, p)))
    sel = S.choose("sel", PERMS + [[1], [2, 0], []])
    got = S.lst(quiet(lambda: f(S, p[list(sel)] if sel else p[:0])))
    S.check(len(got) == len(sel), "a row per particle")
    for i, a in enumerate(sel):
        for j, b in enumerate(sel):
            S.close(got[i][j], whole[a][b], what + " of the selection")


def angles(S, p, f):
    S.optimise_at([0.7, 0.4])
    return f(p)


TOTAL = {
    "combined_mass": lambda S, p: S.gcl.calculate.combined_mass(p), "sum": lambda S, p: S.np.sum(p, axis=0)._data, "resultant": lambda S, p: S.gcl.calculate.resultant_coords(p), "resultant_rapidity": lambda S, p: S.gcl.calculate.resultant_coords(p, pseudo=False)[0],
    "centroid": lambda S, p: S.gcl.calculate.weighted_centroid(p), "c_parameter": lambda S, p: S.gcl.calculate.c_parameter(p),
    "thrust": lambda S, p: S.gcl.calculate._thrust_with_grad(S.arr([0.7, 0.4], "<f8"), p.data), "spherocity": lambda S, p: S.gcl.calculate._spherocity_with_grad(S.arr([0.7, 0.4], "<f8"), p.data),
    "aggregate": lambda S, p: S.gcl.calculate.aggregate_momenta(p, [S.gcl.MaskArray([True] * len(p))])._data,
    "axis": lambda S, p: S.gcl.transform.soft_hard_axis(p), "split": lambda S, p: S.gcl.transform.split_hardest(p, 0.25, 0.5, (0.3, 0.2))._data[-2:],
}


def total(S, what):
    """one value for all particles"""
    f = TOTAL[what]
    a = sized(S, "a")
    if what in ("axis", "split"):
        for size in (2.5, 10.0):
            S.gap(1.25 * (a[0] / 0.75), size)
    P = [a] + [list(x) for x in FIX]
    sel = S.choose("sel", PERMS[1:])
    x = quiet(lambda: f(S, S.gcl.MomentumArray(S.arr(P, "<f8"))))
    y = quiet(lambda: f(S, S.gcl.MomentumArray(S.arr(take(S, P, sel), "<f8"))))
    flat = lambda v: [flat(w) for w in v] if isinstance(v, (list, tuple)) else S.lst(v)
    S.close(flat(x), flat(y), what + " in another order", tol=1e-5)


def graphs(S, what):
    """adjacency matrices among nodes"""
    n = 3
    up = [S.float("d%d" % i, 0, 16) for i in range(3)]
    d = [[0.0, up[0], up[1]], [up[0], 0.0, up[2]], [up[1], up[2], 0.0]]
    sel = S.choose("sel", PERMS[1:])
    e = [[d[a][b] for b in sel] for a in sel]
    M = S.gcl.matrix
    if what == "knn":
        for i, j in ((0, 1), (0, 2), (1, 2)):
            S.gap(up[i], up[j])
        f = lambda x: [M.knn_adj(x, 1), M.knn_adj(x, 2, self_loop=True, weighted=True), M.knn_adj(x, 1, row=False)]
    else:
        for u in up:
            S.gap(u, 4.0)
        f = lambda x: [M.cut_adj(x, 4.0), M.cut_adj(x, 4.0, mode="min", weighted=True), M.cut_adj(x, 4.0, self_loop=True)]
    for x, y in zip(f(S.arr(d, "<f8")), f(S.arr(e, "<f8"))):
        x = S.lst(x)
        S.same(y, [[x[a][b] for b in sel] for a in sel], what + " graph of the nodes in another order")


def coefficients(S):
    t = S.float("t", 0.5, 32)
    P = [[t, 0.0, 0.0, 40.0], [0.0, 2.0, 0.0, 2.0], [2.0, 0.25, t, 70.0]]
    sel = S.choose("sel", PERMS[1:])
    S.gap(t, 1.0)
    f = lambda r: quiet(lambda: S.gcl.calculate.cluster_coeff_distbn(S.gcl.MomentumArray(S.arr(r, "<f8")), 1.9))
    S.same(f(take(S, P, sel)), take(S, S.lst(f(P)), sel), "clustering coefficients in another order")


def codes(S, n):
    c = [S.int("c%d" % i, -30, 30) for i in range(n)]
    s = S.ints("s", n, -2**15, 2**15 - 1)
    sel = S.choose("sel", PERMS + SELS)
    A = S.gcl.PdgArray(S.arr(c, "<i4"))
    B = S.gcl.StatusArray(S.arr(s, "<i2"))
    lo, hi = S.int("lo", 0, 90), S.int("hi", 0, 90)
    key = list(sel) if sel else slice(0, 0)
    for name, f, x in (("mask", lambda a: a.mask([5, -11]), A), ("signed mask", lambda a: a.mask([5, -11], blacklist=False, sign_sensitive=True), A), ("range", lambda b: b.in_range(lo, hi), B),
                       ("outgoing", lambda b: b.hard_mask["outgoing"], B), ("hard", lambda b: S.gcl.MaskArray(b.hard_mask.data), B)):
        whole = S.lst(f(x))
        S.same(f(x[key]), take(S, whole, sel), name + " of the selection")


def attributes(S):
    c = [S.choose("c%d" % i, [5, -5, 24, 211, 22]) for i in range(3)]
    sel = S.choose("sel", PERMS[1:3] + SELS[1:])
    A = S.gcl.PdgArray(S.arr(c, "<i4"))
    for f in ("name", "mass", "charge", "width", "latex", "quarks"):
        whole = S.lst(getattr(A, f))
        S.same(getattr(A[list(sel)], f), take(S, whole, sel), f + " of the selection")


def masks(S, n):
    """joint selections of the positions of masks"""
    a, b, w = S.bools("a", n), S.bools("b", n), S.floats("w", n, 0.5, 8)
    sel = S.choose("sel", [list(p) for p in itertools.permutations(range(n))][1:])
    f = lambda x, y, z: S.gcl.calculate.jaccard_distance(S.gcl.MaskArray(S.arr(x, "<?")), S.gcl.MaskArray(S.arr(y, "<?")), S.arr(z, "<f8"))
    S.close(f(a, b, w), f(take(S, a, sel), take(S, b, sel), take(S, w, sel)), "Jaccard distance in another order")


def members(S, n):
    """the order of the members of a group"""
    ms = [S.bools("m%d_" % k, n) for k in range(3)]
    sel = S.choose("sel", PERMS[1:])
    agg = S.choose("agg", ["and", "or"])
    g = lambda order: S.gcl.MaskGroup({"k%d" % k: S.gcl.MaskArray(S.arr(ms[k], "<?")) for k in order}, agg)
    x, y = g(range(3)), g(sel)
    S.same(x.data, y.data, "aggregate with the members in another order")
    S.check(S.iff(S.gcl.select.any_overlap(x), S.gcl.select.any_overlap(y)), "overlap with the members in another order")
    S.check(x.equal_to(y), "equal whatever the order")
    S.check(not x.equal_to(y, check_order=True), "different in their order")


# ---- events
EVENTS = {
    # t -> b W, W -> u d~, hadrons of u and d~ mixed, b hadron
    "top": dict(edges=[[1, 2], [2, 3], [2, 4], [4, 5], [4, 5], [5, 6], [3, 7]], pdg=[6, 5, 24, 2, -1, 211, 511], status=[22, 23, 22, 23, 23, -83, 84], color=[[1, 0], [1, 0], [0, 0], [2, 0], [0, 2], [0, 0], [0, 0]]),
    "pair": dict(edges=[[0, 2], [1, 2], [2, 3], [2, 4], [3, 5], [4, 5], [5, 6], [5, 7], [6, 8]], pdg=[2, 21, 5, -5, 4, -3, 111, 211, 22], status=[-21, -21, 23, 23, 51, 51, -83, 83, 91],
                 color=[[1, 0], [2, 1], [3, 0], [0, 3], [3, 0], [0, 3], [0, 0], [0, 0], [0, 0]]),
}
PMU = [[30.0, 40.0, 10.0, 200.0], [12.0, 5.0, 2.0, 15.0], [18.0, 35.0, 8.0, 185.0], [3.0, 4.0, 0.0, 5.0], [15.0, -8.0, 1.0, 18.0], [6.0, 8.0, 1.0, 11.0], [5.0, 12.0, -1.0, 13.5], [-4.0, 3.0, 2.0, 6.0], [0.5, -1.2, 0.25, 2.0]]
ORDERS = {7: [[6, 5, 4, 3, 2, 1, 0], [3, 0, 6, 1, 5, 2, 4], [1, 0, 2, 4, 3, 6, 5], [5, 6, 0, 1, 2, 3, 4]],
          9: [[8, 7, 6, 5, 4, 3, 2, 1, 0], [4, 8, 0, 3, 7, 1, 6, 2, 5], [1, 0, 3, 2, 5, 4, 7, 6, 8], [6, 7, 8, 0, 1, 2, 3, 4, 5]]}
LABELS = {"reversed": lambda v: 20 - v, "negative": lambda v: -1 - v, "sparse": lambda v: [907, -4, 33, 0, 250000, -77, 8, 15, -2**31][v], "mixed": lambda v: [-5, 5, -1, 1, 3, -3, 9, -9, 2][v], "shifted": lambda v: v + 2**31 - 20}


def build(S, ev, order, label, fin):
    e = EVENTS[ev]
    n = len(e["pdg"])
    row = lambda x: [x[i] for i in order]
    return S.gcl.Graphicle.from_numpy(pdg=S.arr(row(e["pdg"]), "<i4"), pmu=S.arr(row(PMU[:n]), "<f8"), color=S.arr(row(e["color"]), "<i4"), status=S.arr(row(e["status"]), "<i2"),
                                      final=S.arr(row(fin), "<?"), edges=S.arr([[label(a), label(b)] for a, b in row(e["edges"])], "<i4"))


def named(S, x, order=None):
    """a mask tree by name: sorted keys, rows in the first order"""
    if isinstance(x, S.gcl.MaskGroup):
        return [[k, named(S, x[k], order)] for k in sorted(x)]
    v = S.lst(x._data)
    if order is None or len(v) != len(order):
        return v
    out = [None] * len(v)
    for pos, i in enumerate(order):
        out[i] = v[pos]
    return out


def hier(S, g):
    d = S.gcl.select.hard_descendants(g)
    return S.gcl.select.hierarchy(g, d)


def vertices(S, ev, label):
    return sorted({v for e in EVENTS[ev]["edges"] for v in e})


CALLS = {
    "roots": lambda S, g, L, V: g.adj.roots, "leaves": lambda S, g, L, V: g.adj.leaves,
    "descendants": lambda S, g, L, V: S.gcl.MaskGroup({str(v): S.gcl.select.vertex_descendants(g.adj, L(v)) for v in V}, "or"),
    "hadron_vertices": lambda S, g, L, V: sorted(V[[L(v) for v in V].index(int(x))] for x in S.gcl.select.hadron_vertices(g.adj, g.status)),
    "find_vertex": lambda S, g, L, V: [sorted(V[[L(v) for v in V].index(int(x))] for x in S.gcl.select.find_vertex(g, pdgs_in=a, pdgs_out=b)) for a, b in ((None, {5}), ({24}, None), ({5}, {-5, 5}), ({211}, None))],
    "hard_descendants": lambda S, g, L, V: S.gcl.select.hard_descendants(g), "targets": lambda S, g, L, V: S.gcl.select.hard_descendants(g, (5,)), "hierarchy": lambda S, g, L, V: hier(S, g),
    "partition": lambda S, g, L, V: S.gcl.select.partition_descendants(g, hier(S, g), 0.0), "singlets": lambda S, g, L, V: sorted(sorted(x) for x in S.gcl.select.color_singlets(S.gcl.select.leaf_masks(hier(S, g)), g.status, g.color)),
    "prune": lambda S, g, L, V: S.gcl.select.centroid_prune(g.pmu, 1.0, g.final, (0.2, 0.5)), "tags": lambda S, g, L, V: S.gcl.select.monte_carlo_tag(g.particles, [S.gcl.MaskArray([i == j for i in range(4)]) for j in range(4)], S.gcl.MomentumArray(S.arr(PMU[1:5], "<f8"))),
    "degrees": lambda S, g, L, V: sorted(V[[L(v) for v in V].index(int(x))] for x in g.nodes),
}


def event(S, ev, what, order=None, label=None):
    """the same event with its rows in another order, or its vertices labelled differently"""
    n = len(EVENTS[ev]["pdg"])
    ends = [all(b != a for a, _ in EVENTS[ev]["edges"]) for _, b in EVENTS[ev]["edges"]]
    fin = [S.bool("f%d" % i) if i >= n - 3 else ends[i] for i in range(n)]
    if what == "clusters" or what == "partition":
        pass
    one = range(n)
    L = LABELS[label] if label else (lambda v: v)
    V = vertices(S, ev, None)
    plain = lambda v: v
    f = CALLS[what]
    x = quiet(lambda: f(S, build(S, ev, list(one), plain, fin), plain, V))
    y = quiet(lambda: f(S, build(S, ev, order or list(one), L, fin), L, V))
    norm = lambda r, o: named(S, r, o) if isinstance(r, S.gcl.base.MaskBase) else r
    S.same(norm(y, order), norm(x, None), what + " of the rearranged event")


def clusters(S, ev, order=None, label=None):
    n = len(EVENTS[ev]["pdg"])
    ends = [all(b != a for a, _ in EVENTS[ev]["edges"]) for _, b in EVENTS[ev]["edges"]]
    fin = [S.bool("f%d" % i) if i >= n - 2 else ends[i] for i in range(n)]
    vals = [S.truth(x) for x in fin]
    L = LABELS[label] if label else (lambda v: v)
    o = order or list(range(n))
    x = quiet(lambda: S.gcl.select.clusters(build(S, ev, list(range(n)), lambda v: v, fin), 0.9))
    y = quiet(lambda: S.gcl.select.clusters(build(S, ev, o, L, fin), 0.9))
    # position of each final particle among the final ones
    a = [i for i in range(n) if vals[i]]
    b = [i for i in o if vals[i]]
    S.check(sorted(x) == sorted(y), "the same clusters")
    for k in x:
        u, v = S.lst(x[k]._data), S.lst(y[k]._data)
        S.same([v[b.index(i)] for i in a], u, "cluster %s of the rearranged event" % k)


def tasks(tier):
    q = tier == "quick"
    out = []
    for w in EACH:
        for kind in ("order", "some", "mask"):
            out.append(("each", dict(what=w, kind=kind), 4))
    for w in PAIRS:
        out.append(("pairs", dict(what=w), 6))
    for w in TOTAL:
        out.append(("total", dict(what=w), 6))
    for w in ("knn", "cut"):
        out.append(("graphs", dict(what=w), 6))
    out.append(("coefficients", dict(), 6))
    out.append(("codes", dict(n=3), 6))
    out.append(("attributes", dict(), 6))
    for n in (2, 3) if q else (2, 3, 4):
        out.append(("masks", dict(n=n), 2 * n))
        out.append(("members", dict(n=n), 2 * n))
    for h, ev in enumerate(EVENTS):
        orders = ORDERS[len(EVENTS[ev]["pdg"])]
        for k, o in enumerate(orders):
            for j, w in enumerate(CALLS):
                if not q or (j + k + h) % 4 == 0:
                    out.append(("event", dict(ev=ev, what=w, order=o), 2))
            if not q or k == h:
                out.append(("clusters", dict(ev=ev, order=o), 4))
        for k, l in enumerate(LABELS):
            for j, w in enumerate(CALLS):
                if not q or (j + k + h) % 5 == 0:
                    out.append(("event", dict(ev=ev, what=w, label=l), 2))
                if not q or (j + 2 * k + h) % 5 == 2:
                    out.append(("event", dict(ev=ev, what=w, order=orders[(k + j) % 4], label=l), 2))
            if not q or k == h + 2:
                out.append(("clusters", dict(ev=ev, order=orders[k % 4], label=l), 4))
    return out

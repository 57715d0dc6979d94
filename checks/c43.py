"""C43 computing from data neither changes them nor depends on what was computed before"""
import math
import warnings
from checks.common import *

FUNCTIONS = "every property, query and analysis function of data, select, calculate, matrix and transform, apart from fastjet_clusters (C38)"
BOUNDS = "one event of 7 particles with unknown final flags, weights and status of the last particles; 3 + 2 momenta, two of them of unknown size, with unknown masks; mask groups two deep with unknown contents over 2 positions; every call followed by every other one of its group (quick: by three to eight others, chosen by position, so that each is before and after several)"

MOM = [[3.0, -4.0, 12.0, 14.0], [-1.5, 2.0, -6.0, 9.0], [8.0, 6.0, 0.0, 12.0]]
CAND = [[4.0, 3.0, 1.0, 8.0], [0.0, -5.0, 2.5, 7.0], [-6.0, 8.0, -3.0, 12.0]]
#        t       b       W       u       d~      hadron  pion
EDGES = [[1, 2], [2, 3], [2, 4], [4, 5], [4, 5], [5, 6], [6, 7]]
PMU = [[30.0, 40.0, 10.0, 200.0], [12.0, 5.0, 2.0, 15.0], [18.0, 35.0, 8.0, 185.0], [3.0, 4.0, 0.0, 5.0], [15.0, 8.0, 1.0, 18.0], [6.0, 8.0, 1.0, 11.0], [5.0, 12.0, -1.0, 13.5]]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def value(S, x):
    """any result as nested lists"""
    g = S.gcl
    if x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, g.MaskGroup):
        return [x._agg_op, [[k, value(S, v)] for k, v in x.items()]]
    if isinstance(x, (g.Graphicle, g.ParticleSet)):
        return [type(x).__name__] + [value(S, attr(x, k)) for k in KINDS + (["adj", "weights"] if isinstance(x, g.Graphicle) else [])]
    if isinstance(x, g.AdjacencyList):
        return ["AdjacencyList", S.lst(x._data), S.lst(x.weights)]
    if isinstance(x, (g.base.ArrayBase, g.base.MaskBase)):
        return [type(x).__name__, S.lst(x._data)]
    if hasattr(x, "row") and hasattr(x, "col"):
        return [S.lst(x.row), S.lst(x.col), S.lst(x.data), list(x.shape)]
    if isinstance(x, dict):
        return [[k, value(S, v)] for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [value(S, v) for v in x]
    names = getattr(getattr(x, "dtype", None), "names", None)
    if names:
        return [S.lst(x[nm]) for nm in names]
    return S.lst(x)


# ---- momenta: R.p, R.q momenta; R.m masks; R.w weights; R.d distances
class Box:
    pass


def momenta(S):
    R = Box()
    t, u = S.float("t", 0.5, 32), S.float("u", 0.5, 32)
    p, q = [list(x) for x in MOM], [list(x) for x in CAND[:2]]
    p[0] = [t * c for c in (0.75, -1.0, 0.5, 2.0)]
    q[1] = [u * c for c in (-0.6, -0.8, 0.0, 1.5)]
    m = S.bools("m", 3)
    w = S.floats("w", 3, 0, 8)
    d = [[0.0, 1.0, 2.5], [1.0, 0.0, 4.0], [2.5, 4.0, 0.0]]

    def build():
        R = Box()
        g = S.gcl
        R.p, R.q = g.MomentumArray(S.arr(p, "<f8")), g.MomentumArray(S.arr(q, "<f8"))
        R.m = g.MaskArray(S.arr(m, "<?"))
        R.n = g.MaskArray(S.arr([True, False, True], "<?"))
        R.w = S.arr(w, "<f8")
        R.W = S.arr([[x] for x in w], "<f8")
        R.d = S.arr(d, "<f8")
        return R
    return build


def kept_momenta(S, R):
    return [S.lst(R.p._data), S.lst(R.q._data), S.lst(R.m._data), S.lst(R.n._data), S.lst(R.w), S.lst(R.W), S.lst(R.d)]


def at(S, f):
    S.optimise_at([0.7, 0.4])
    return f()


MOMENTA = {
    "pt": lambda S, R: R.p.pt, "eta": lambda S, R: R.p.eta, "rapidity": lambda S, R: R.p.rapidity, "phi": lambda S, R: R.p.phi, "theta": lambda S, R: R.p.theta,
    "mass": lambda S, R: R.p.mass, "mass_t": lambda S, R: R.p.mass_t, "energy": lambda S, R: [R.p.energy, R.p.x, R.p.y, R.p.z, R.p.data],
    "delta_R": lambda S, R: R.p.delta_R(R.q), "delta_R_self": lambda S, R: R.p.delta_R(R.p, pseudo=False),
    "shift_phi": lambda S, R: R.p.shift_phi(0.5), "shift_rapidity": lambda S, R: R.p.shift_rapidity(0.25), "shift_eta": lambda S, R: R.q.shift_eta(0.5, experimental=True).z,
    "sums": lambda S, R: [S.np.sum(R.p, axis=0), S.np.sum(R.p, axis=1)], "plus": lambda S, R: [R.p + R.p, R.p * 2.0, -R.p, R.p - R.p[0]], "equal": lambda S, R: [R.p == R.p, R.p != R.p[1]],
    "copy": lambda S, R: R.p.copy(), "slice": lambda S, R: [R.p[1:], R.p[::-1], R.p[R.n], R.p[0].pt], "list": lambda S, R: [list(R.p), R.p.serialize()],
    "weighted_centroid": lambda S, R: S.gcl.calculate.weighted_centroid(R.p), "resultant_coords": lambda S, R: S.gcl.calculate.resultant_coords(R.p, pseudo=False),
    "combined_mass": lambda S, R: S.gcl.calculate.combined_mass(R.q), "weighted_mass": lambda S, R: S.gcl.calculate.combined_mass(R.p, R.W[:, :1] * 0.0 + 2.0),
    "aggregate": lambda S, R: S.gcl.calculate.aggregate_momenta(R.p, [R.n, R.m, ~R.n]), "cluster_coeff": lambda S, R: S.gcl.calculate.cluster_coeff_distbn(R.p, 1.5),
    "c_parameter": lambda S, R: S.gcl.calculate.c_parameter(R.p), "jaccard": lambda S, R: S.gcl.calculate.jaccard_distance(R.m, R.n, R.w + 1.0),
    "cut_adj": lambda S, R: [S.gcl.matrix.cut_adj(R.d, 2.0, self_loop=s, weighted=w) for s in (False, True) for w in (False, True)],
    "cut_min": lambda S, R: [S.gcl.matrix.cut_adj(R.d, 2.0, mode="min", self_loop=s, weighted=w) for s in (False, True) for w in (False, True)],
    "knn_adj": lambda S, R: [S.gcl.matrix.knn_adj(R.d, 1, row=r, self_loop=s, weighted=w) for r in (False, True) for s in (False, True) for w in (False, True)],
    "cut_all": lambda S, R: [S.gcl.matrix.cut_adj(R.d, c, mode=m, self_loop=s, weighted=w) for c, m in ((9.0, "max"), (-1.0, "min"), (-1.0, "max")) for s in (False, True) for w in (False, True)],
    "knn_all": lambda S, R: [S.gcl.matrix.knn_adj(R.d, 2 + s, row=r, self_loop=s, weighted=w) for r in (False, True) for s in (False, True) for w in (False, True)],
    "prune_all": lambda S, R: [S.gcl.select.centroid_prune(R.p, 99.0, R.n, (0.1, 0.2)), S.gcl.select.centroid_prune(R.q, 99.0, None, (0.1, 0.2))],
    "none_shifted": lambda S, R: [R.p.shift_phi(0.0), R.p.shift_rapidity(0.0), R.p.shift_phi(R.w * 0.0)],
    "fc_adj": lambda S, R: S.gcl.matrix.fc_adj(3), "delta_R_aff": lambda S, R: S.gcl.matrix.delta_R_aff(R.q), "parton_hadron": lambda S, R: S.gcl.matrix.parton_hadron_distance(R.p, R.q, 1.0),
    "soft_hard_axis": lambda S, R: S.gcl.transform.soft_hard_axis(R.q), "split_momentum": lambda S, R: S.gcl.transform.split_momentum(R.q[:1], 0.25, 0.5, (0.3, 0.2)),
    "split_hardest": lambda S, R: S.gcl.transform.split_hardest(R.p, 0.25, 0.5, (0.3, 0.2)), "prune": lambda S, R: S.gcl.select.centroid_prune(R.p, 1.5, R.n, (0.1, 0.2)),
    "prune_own": lambda S, R: S.gcl.select.centroid_prune(R.q, 1.5), "closest": lambda S, R: S.gcl.select.arg_closest(R.q[:1], R.p[1:]),
    "thrust": lambda S, R: at(S, lambda: S.gcl.calculate.thrust(R.p, return_axis=True)), "spherocity": lambda S, R: at(S, lambda: S.gcl.calculate.spherocity(R.p, return_axis=True)),
}


# ---- an event: R.g graph, R.set its particles, R.hier, R.desc, R.clusters
def event(S):
    fin = [False, False, False] + S.bools("f", 4)
    st = [22, 23, 22, 23, 23] + [S.choose("st", [-83, 71]), 91]
    w = S.floats("w", 7, 0, 8)
    lat = S.bools("l", 7)

    def build():
        g = S.gcl
        R = Box()
        R.g = g.Graphicle.from_numpy(pdg=S.arr([6, 5, 24, 2, -1, 511, 211], "<i4"), pmu=S.arr(PMU, "<f8"), status=S.arr(st, "<i2"),
                                     color=S.arr([[1, 0], [1, 0], [0, 0], [2, 0], [0, 2], [0, 0], [0, 0]], "<i4"), helicity=S.arr([0, 1, -1, 1, 1, 0, 0], "<i2"),
                                     final=S.arr(fin, "<?"), edges=S.arr(EDGES, "<i4"), weights=S.arr(w, "<f8"))
        R.plain = g.AdjacencyList(S.arr(EDGES + [[5, 6]], "<i4"))
        M = lambda v: g.MaskArray(S.arr([bool(x) for x in v], "<?"))
        R.desc = g.MaskGroup({"t": M([1] * 7), "b": M([0, 1, 0, 0, 0, 0, 0]), "W+": M([0, 0, 1, 1, 1, 1, 1]), "u": M([0, 0, 0, 1, 0, 1, 1]), "d~": M([0, 0, 0, 0, 1, 1, 1])}, "or")
        R.hier = g.MaskGroup({"t": g.MaskGroup({"b": M([0, 1, 0, 0, 0, 0, 0]), "W+": g.MaskGroup({"u": M([0, 0, 0, 1, 0, 1, 1]), "d~": M([0, 0, 0, 0, 1, 1, 1]), "latent": M([0, 0, 1, 0, 0, 0, 0])}, "or"),
                                                  "latent": g.MaskArray(S.arr(lat, "<?"))}, "or")}, "or")
        R.jets = [M([1, 0]), M([0, 1])]
        R.jet_pmu = g.MomentumArray(S.arr(CAND[:2], "<f8"))
        R.mat = S.arr([[0, 1, 0], [2, 0, 3], [0, 0, 4]], "<i4")
        return R
    return build


def kept_event(S, R):
    return [value(S, R.g), value(S, R.plain), value(S, R.desc), value(S, R.hier), value(S, R.jets), value(S, R.jet_pmu), S.lst(R.mat)]


def table(S, x, html):
    t = S.tables()
    s = x._repr_html_() if html else str(x)
    return [[list(e["headers"]), [list(r) for r in e["rows"]]] if isinstance(e, dict) else str(type(e)) for e in t]


EVENT = {
    "nodes": lambda S, R: R.g.nodes, "roots": lambda S, R: R.g.adj.roots, "leaves": lambda S, R: R.g.adj.leaves, "matrix": lambda S, R: R.g.adj.matrix, "counts": lambda S, R: R.plain.matrix,
    "sparse": lambda S, R: [R.g.adj.to_sparse(), R.plain.to_sparse()], "sparse_data": lambda S, R: R.g.adj.to_sparse(R.g.adj.weights), "plain": lambda S, R: [R.plain.roots, R.plain.leaves, R.plain.nodes],
    "from_matrix": lambda S, R: [S.gcl.AdjacencyList.from_matrix(R.mat, weighted=w, self_loop=s) for w in (False, True) for s in (False, True)],
    "vertex_descendants": lambda S, R: [S.gcl.select.vertex_descendants(R.g.adj, v) for v in (1, 4, 7)], "edge_descendants": lambda S, R: S.gcl.select.edge_descendants(R.g.adj, S.gcl.VertexPair(2, 4)),
    "plain_descendants": lambda S, R: [S.gcl.select.vertex_descendants(R.plain, v) for v in (2, 5)],
    "hadron_vertices": lambda S, R: S.gcl.select.hadron_vertices(R.g.adj, R.g.status), "find_vertex": lambda S, R: S.gcl.select.find_vertex(R.g, pdgs_in={24}, pdgs_out={2, -1}),
    "hard_descendants": lambda S, R: S.gcl.select.hard_descendants(R.g), "hard_targets": lambda S, R: S.gcl.select.hard_descendants(R.g, (5, -24)), "hierarchy": lambda S, R: S.gcl.select.hierarchy(R.g),
    "hierarchy_desc": lambda S, R: S.gcl.select.hierarchy(R.g, R.desc), "partition": lambda S, R: S.gcl.select.partition_descendants(R.g, R.hier, 0.0), "leaf_masks": lambda S, R: S.gcl.select.leaf_masks(R.hier),
    "flatten_rise": lambda S, R: R.hier.flatten("rise"), "flatten_agg": lambda S, R: R.hier.flatten("agg"), "flatten_leaves": lambda S, R: R.hier.flatten("leaves"), "drop": lambda S, R: R.hier.recursive_drop(),
    "overlap": lambda S, R: S.gcl.select.any_overlap(R.desc), "singlets": lambda S, R: S.gcl.select.color_singlets(R.desc, R.g.status, R.g.color),
    "singlets_not": lambda S, R: sorted(S.gcl.select.color_singlets(R.desc, R.g.status, R.g.color, invert=True)), "clusters": lambda S, R: S.gcl.select.clusters(R.g, 0.75),
    "tag": lambda S, R: S.gcl.select.monte_carlo_tag(R.g.particles, R.jets, R.jet_pmu, blacklist=[5]), "tag_W": lambda S, R: S.gcl.select.monte_carlo_tag(R.g.particles, R.jets, R.jet_pmu, intermediate=True, outgoing=False, whitelist=[-24], sign_sensitive=False),
    "pdg": lambda S, R: [R.g.pdg.name, R.g.pdg.mass, R.g.pdg.charge, R.g.pdg.mass_bounds, R.g.pdg.width], "pdg_mask": lambda S, R: [R.g.pdg.mask([-6, 5]), R.g.pdg.mask([-1], blacklist=False, sign_sensitive=True)],
    "in_range": lambda S, R: [R.g.status.in_range(22, 80), R.g.status.in_range(-90, 0, sign_sensitive=True)], "hard_mask": lambda S, R: [R.g.hard_mask, R.g.status.hard_mask.data],
    "slice": lambda S, R: [R.g[1:3], R.g[R.desc["u"]], R.g[::-1]], "equal": lambda S, R: [R.g == R.g.copy(), R.g.particles != R.g.particles[:2]], "serialize": lambda S, R: [R.g.serialize(), R.hier.serialize()],
    "aggregate": lambda S, R: [R.hier.data, R.desc.bitwise_and(), R.hier.bitwise_or()], "logic": lambda S, R: [R.hier & R.desc["b"], R.desc | R.hier, ~R.hier, R.desc["u"] == R.hier, R.desc["u"] != R.desc["b"]],
    "equal_to": lambda S, R: [R.hier.equal_to(R.hier.copy()), R.hier.equal_to(R.desc), R.desc.equal_to(R.desc, check_order=True)], "select_keys": lambda S, R: [R.desc[["u", "t"]], R.hier[2:], R.desc[R.g.final]],
    "table": lambda S, R: [table(S, R.g, False), table(S, R.g.particles, True)], "length": lambda S, R: [len(R.g), bool(R.g), len(R.hier), bool(R.hier), len(R.desc["t"])],
    "coords": lambda S, R: [R.g.pmu.eta, R.g.pmu.mass, R.g.pmu.phi], "lists": lambda S, R: [list(R.g.color), list(R.g.adj), list(R.g.helicity), list(R.hier), R.g.edges],
}

GROUPS = {"momenta": (momenta, kept_momenta, MOMENTA), "event": (event, kept_event, EVENT)}


def history(S, group, first, then):
    """first neither changes what it is given nor the results of then"""
    builder, kept, calls = GROUPS[group]
    build = builder(S)
    used = build()
    before = kept(S, used)
    a = value(S, quiet(lambda: calls[first](S, used)))
    S.same(kept(S, used), before, first + " leaves its arguments as they were")
    for name in then:
        b = value(S, quiet(lambda: calls[name](S, used)))
        S.same(b, value(S, quiet(lambda: calls[name](S, build()))), "%s after %s" % (name, first))
    S.same(a, value(S, quiet(lambda: calls[first](S, used))), first + " again")
    S.same(kept(S, used), before, "%s leave their arguments as they were" % ", ".join([first] + then))


def tasks(tier):
    q = tier == "quick"
    out = []
    for group, (_, _, calls) in GROUPS.items():
        names = list(calls)
        n = len(names)
        for i, a in enumerate(names):
            steps = range(1, n) if not q else [1, 3, 8]
            others = [names[(i + k) % n] for k in steps]
            for j in range(0, len(others), 3):
                out.append(("history", dict(group=group, first=a, then=others[j:j + 3])))
    return out

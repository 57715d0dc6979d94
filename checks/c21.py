"""C21 mixed hadrons go to the nearest incident parton"""
import math
from checks.common import *

FUNCTIONS = "select.partition_descendants, _partition_vertex, _hadron_vtx_parton_iter, hadron_vertices, _leaf_mask_iter, vertex_descendants, matrix.parton_hadron_distance, data.MomentumArray.delta_R, .pt"
BOUNDS = "4 event topologies of 6 to 11 particles with one to three hadronisation vertices that share no descendants; any masks, any final-state marks, any statuses of hadrons (up to 10 unknown flags at a time, the others fixed); 3 sets of momenta with clear distances, exponents -0.1, 0, 1, -2; distance formula: any momenta"

# (source, destination) per particle
TOPO = {
    "mix2": [(0, 2), (1, 2), (2, 3), (2, 4), (2, 5), (3, 6)],
    "mix3": [(0, 3), (1, 3), (2, 3), (3, 4), (3, 5), (3, 6), (4, 7), (4, 8)],
    "two": [(0, 4), (1, 4), (2, 5), (3, 5), (4, 6), (4, 7), (5, 8), (5, 9), (9, 10)],
    "shuffled": [(6, 9), (4, 7), (2, 5), (0, 4), (5, 8), (1, 4), (4, 6), (3, 5)],
    "three": [(0, 3), (1, 3), (1, 4), (2, 4), (2, 5), (3, 6), (3, 7), (4, 8), (4, 9), (5, 10), (6, 11)],
}
HV = {"mix2": [2], "mix3": [3], "two": [4, 5], "shuffled": [4, 5], "three": [3, 4, 5]}


def sphere(pt, eta, phi):
    return [pt * math.cos(phi), pt * math.sin(phi), pt * math.sinh(eta), pt * math.cosh(eta)]


def momenta(n, conf):
    """fixed directions, spread over the plane and across the +-pi line"""
    out = []
    for i in range(n):
        a = (i * 0.618034 + 0.37 * conf) % 1.0
        b = (i * 0.754878 + 0.21 * conf + 0.13) % 1.0
        phi = (a - 0.5) * (6.2 if conf != 2 else 1.1) + (math.pi - 0.1 if conf == 2 else 0.0)
        out.append(sphere([1.0, 40.0, 7.5, 0.4, 15.0][(i * 3 + conf) % 5], (b - 0.5) * 4, phi))
    return out


def dist(p, h, k):
    def eta(v):
        return math.asinh(v[2] / math.hypot(v[0], v[1]))
    d = abs(math.atan2(p[1], p[0]) - math.atan2(h[1], h[0]))
    d = min(d, 2 * math.pi - d)
    return math.hypot(p[0], p[1]) ** k * math.hypot(eta(p) - eta(h), d)


def below(t, v):
    r = [a == v for a, _ in t]
    for _ in t:
        r = [r[k] or any(r[j] and t[j][1] == t[k][0] for j in range(len(t))) for k in range(len(t))]
    return r


def some(S, name, n, free, fixed):
    """flags: the listed positions unknown, the others as given"""
    return [S.bool("%s%d" % (name, i)) if i in free else bool(fixed[i]) for i in range(n)]


def partition(S, topo, shape, free, conf=0, k=-0.1, fin="ends", hadrons="fixed", default=False, idmap="nodes", agg="or"):
    t = TOPO[topo]
    n = len(t)
    inc = {v: [i for i in range(n) if t[i][1] == v] for v in HV[topo]}
    desc = {v: below(t, v) for v in HV[topo]}
    ps = momenta(n, conf)
    ends = [all(b != a for a, _ in t) for _, b in t]
    # masks
    cnt = [0]

    def tree(sh):
        d, plain = {}, {}
        for key, sub in sh.items():
            if sub is None:
                i = cnt[0]
                cnt[0] += 1
                f = some(S, "m%d_%s_" % (i, key), n, free.get(key, []), [(j * 7 + i * 3) % 5 < 2 for j in range(n)])
                d[key], plain[key] = S.gcl.MaskArray(S.arr(f, "<?")), f
            else:
                d[key], plain[key] = tree(sub)
        return S.gcl.MaskGroup(d, "or"), plain
    hier, masks = tree(shape)
    hier.agg_op = agg
    final = ends if fin == "ends" else some(S, "f", n, fin, ends)
    status = []
    for i, (a, _) in enumerate(t):
        if a in HV[topo]:
            status.append(S.int("st%d" % i, -2**15, 2**15 - 1) if hadrons == "any" or (isinstance(hadrons, list) and i in hadrons) else 83 if i % 2 else -84)
        else:
            status.append(91 if any(desc[v][i] for v in desc) else 71)
    ids = (lambda x: x) if idmap == "nodes" else (lambda x: [-3, 12, -1, 7, -9, 40, 2, -22, 5, 31, -17, 19][x])
    es = [[ids(a), ids(b)] for a, b in t]
    g = S.gcl.Graphicle.from_numpy(pdg=S.arr([21] * n, "<i4"), pmu=S.arr(ps, "<f8"), status=S.arr(status, "<i2"), edges=S.arr(es, "<i4"), final=S.arr(final, "<?"))
    before = tree_of(S, hier)
    keep = snapshot(S, g.pmu._data, g.adj._data, g.status._data, g.final._data, g.pdg._data)
    r = S.gcl.select.partition_descendants(g, hier) if default else S.gcl.select.partition_descendants(g, hier, k)
    if default:
        k = -0.1
    # expected
    active = {v: S.any([S.all([status[i] >= 80, status[i] <= 90]) if not isinstance(status[i], int) else 80 <= status[i] <= 90 for i in range(n) if t[i][0] == v]
                       + [S.all([status[i] <= -80, status[i] >= -90]) if not isinstance(status[i], int) else -90 <= status[i] <= -80 for i in range(n) if t[i][0] == v]) for v in HV[topo]}
    near = {}
    for v in HV[topo]:
        for h in range(n):
            if desc[v][h]:
                ds = sorted((dist(ps[i], ps[h], k), i) for i in inc[v])
                assert len(ds) < 2 or ds[1][0] - ds[0][0] > 1e-6
                near[h] = (v, ds[0][1])

    def want(f):
        out = list(f)
        for h, (v, p) in near.items():
            applies = S.all([active[v], final[h], S.any([f[i] for i in inc[v]])])
            out[h] = S.ite(applies, f[p], f[h])
        return out

    def walk(got, plain, orig, msg, latent_top=True):
        S.check(list(got.keys()) == list(plain), msg + ": keys")
        for key, sub in plain.items():
            if isinstance(sub, dict):
                walk(got[key], sub, orig[key], msg + "/" + key)
            elif key == "latent":
                S.same(got[key].data, sub, msg + ": latent masks stay")
            else:
                S.same(got[key].data, want(sub), msg + "/" + key)
    S.check(type(r) is S.gcl.MaskGroup and r is not hier, "a new group")
    S.check(r.agg_op.value == agg, "aggregation rule kept")
    walk(r, masks, hier, "partitioned")
    same_tree(S, before, tree_of(S, hier), "supplied hierarchy left as it was")
    unchanged(S, keep, g.pmu._data, g.adj._data, g.status._data, g.final._data, g.pdg._data, what="event attribute")
    for key in shape:
        if shape[key] is None:
            r[key]._data[...] = S.np.logical_not(r[key]._data)
    same_tree(S, before, tree_of(S, hier), "supplied hierarchy left as it was when the result is written to")


def tasks(tier):
    q = tier == "quick"
    out = []
    A = dict(top=None)
    AB = dict(t=None, tbar=None)
    NEST = dict(t=dict(W=None, b=None, latent=None), H=None)
    DEEP = {"t": {"W+": {"u": None, "dbar": None, "latent": None}, "b": None, "latent": None}}
    out.append(("partition", dict(topo="mix2", shape=A, free=dict(top=list(range(6))), default=True), 1))
    out.append(("partition", dict(topo="mix2", shape=A, free=dict(top=[0, 1]), fin=list(range(2, 6)), k=0.0), 1))
    out.append(("partition", dict(topo="mix2", shape=A, free=dict(top=[0, 1]), hadrons="any", conf=1, k=1.0), 1))
    out.append(("partition", dict(topo="mix3", shape=A, free=dict(top=list(range(8))), conf=1), 2))
    out.append(("partition", dict(topo="mix3", shape=AB, free=dict(t=[0, 1, 2], tbar=[0, 1, 2]), fin=[3, 6], k=-2.0, idmap="x"), 2))
    out.append(("partition", dict(topo="two", shape=AB, free=dict(t=[0, 1, 2, 3], tbar=[1, 2]), conf=2, idmap="x", default=True), 2))
    out.append(("partition", dict(topo="two", shape=A, free=dict(top=[0, 1, 3]), hadrons=[4, 5, 6], conf=1), 2))
    out.append(("partition", dict(topo="shuffled", shape=A, free=dict(top=[3, 5, 2, 7, 0, 4]), conf=2, k=-0.1), 2))
    out.append(("partition", dict(topo="three", shape=A, free=dict(top=[0, 1, 2, 3, 4]), conf=0), 2))
    out.append(("partition", dict(topo="mix3", shape=NEST, free=dict(W=[0, 1], b=[1, 2], latent=[0, 3], H=[0]), conf=2), 2))
    out.append(("partition", dict(topo="two", shape=DEEP, free={"u": [0, 1], "dbar": [1, 2], "latent": [3]}, conf=1, idmap="x", fin=[4, 7, 8]), 2))
    for agg in ("and", "none"):
        out.append(("partition", dict(topo="mix3", shape=AB, free=dict(t=[0, 1, 2], tbar=[1, 2]), agg=agg, conf=1), 2))
    out.append(("partition", dict(topo="two", shape=NEST, free=dict(W=[0, 1], b=[1, 2], H=[0, 3]), agg="and", conf=2), 2))
    out.append(("formula", dict(n=1, m=1, k=0.0), 2))
    out.append(("formula", dict(n=2, m=1, k=1.0), 3))
    out.append(("formula", dict(n=1, m=2, k=-1.0), 3))
    out.append(("formula", dict(n=1, m=1, k=2.0), 3))
    if not q:
        for topo in TOPO:
            n = len(TOPO[topo])
            for conf in (0, 1, 2):
                for k in (-0.1, 0.0, 1.0, -2.0):
                    ins = [i for i in range(n) if TOPO[topo][i][1] in HV[topo]]
                    out.append(("partition", dict(topo=topo, shape=AB, free=dict(t=ins, tbar=ins[:2]), conf=conf, k=k, idmap="x" if conf else "nodes"), 8))
                    out.append(("partition", dict(topo=topo, shape=NEST, free=dict(W=ins[:3], b=ins[1:3], H=ins[-2:], latent=[n - 1]), conf=conf, k=k), 8))
                out.append(("partition", dict(topo=topo, shape=A, free=dict(top=list(range(n))[:9]), conf=conf), 15))
                out.append(("partition", dict(topo=topo, shape=A, free=dict(top=ins[:3]), conf=conf, fin=list(range(n))[-6:]), 15))
                out.append(("partition", dict(topo=topo, shape=A, free=dict(top=ins[:2]), conf=conf, hadrons="any"), 15))
        out.append(("formula", dict(n=2, m=2, k=1.0), 30))
        out.append(("formula", dict(n=1, m=2, k=0.5), 30))
        out.append(("formula", dict(n=3, m=2, k=0.0), 30))
    return out


def plane(S, name, pt=None):
    """a momentum with known direction: (row, pt, azimuth, log of the tangent of half the polar angle)"""
    phi = S.angle(name + "_phi")
    eta = S.logvar(name + "_eta", 0.05, 20)
    pt = S.float(name + "_pt", 0.1, 50) if pt is None else pt
    u = S.exp(eta)
    return [pt * S.cos(phi), pt * S.sin(phi), pt * (u - 1 / u) / 2, pt * (u + 1 / u) / 2], pt, phi, eta


def formula(S, n, m, k):
    a = [plane(S, "a%d" % i) for i in range(n)]
    b = [plane(S, "b%d" % i, 1.5) for i in range(m)]
    A = S.gcl.MomentumArray(S.arr([x[0] for x in a], "<f8"))
    B = S.gcl.MomentumArray(S.arr([x[0] for x in b], "<f8"))
    d = S.gcl.matrix.parton_hadron_distance(A, B, pt_exp=k)
    S.check(d.shape == (n, m), "rows are the partons, columns the hadrons")
    R = A.delta_R(B)
    for i in range(n):
        w = {0.0: 1, 1.0: a[i][1], 2.0: a[i][1] * a[i][1], -1.0: 1 / a[i][1]}.get(k)
        w = S.sqrt(a[i][1]) if w is None else w
        for j in range(m):
            S.close(d[i, j], w * R[i, j], "distance weighted by the power of the parton's transverse momentum")

"""C41 parton clusters hold the right final-state particles"""
import cmath
import math
from checks.common import *
from checks.c21 import sphere, dist, below, plane
from checks.c19 import keys_of

FUNCTIONS = "select.clusters, hierarchy, partition_descendants, leaf_masks, color_singlets, centroid_prune, data.MaskGroup.recursive_drop, flatten"
BOUNDS = "5 decay events of 7 to 15 particles; one hadron with any direction, or all momenta fixed (5 sets); any radius in [0.05, 8]; colours of the partons any of 0 to 3 for up to two of them; up to 4 unknown final marks; distances not within 1e-3 of the radius"

# (source, destination, status, code) per particle
EVENTS = {
    # W -> u d~ hadronising together, b on its own; the beam gluons in front
    "wb": [(0, 2, -21, 21), (1, 2, -21, 21), (2, 3, -22, 24), (2, 4, 23, 5), (3, 5, 23, 2), (3, 6, 23, -1), (5, 7, 51, 2), (6, 7, 51, -1),
           (4, 8, 52, 5), (7, 9, 83, 211), (7, 10, 84, -211), (8, 11, 83, 211), (8, 12, 83, 111)],
    # the b shares its hadronisation with a gluon of the underlying event
    "ue": [(2, 3, -22, 24), (0, 2, -21, 21), (2, 4, 23, 5), (3, 5, 23, 2), (3, 6, 23, -1), (4, 8, 71, 5), (13, 8, 71, 21), (5, 7, 71, 2), (6, 7, 71, -1),
           (8, 11, -84, 111), (7, 9, 83, 211), (7, 10, 83, -211), (8, 12, 83, 111), (11, 14, 91, 22), (11, 15, 91, 22)],
    # no intermediate parton: two jets and a lepton
    "flat": [(0, 1, -21, 21), (1, 2, 23, 5), (1, 3, 23, -5), (1, 4, 23, 11), (2, 5, 83, 211), (3, 6, 83, 211), (3, 7, 84, 111)],
    # two levels, with partons of the same name
    "deep": [(0, 1, -21, 21), (1, 2, -22, 6), (2, 3, -22, 24), (2, 4, 23, 5), (3, 5, -23, 2), (3, 6, 23, -1), (1, 7, 23, 5),
             (4, 8, 83, 211), (5, 9, 83, 211), (6, 10, -83, 111), (7, 11, 83, 111), (7, 12, 85, 22)],
    # partons which radiate themselves: the top, and the W
    "rad": [(0, 1, -21, 21), (1, 2, -22, 6), (2, 3, -22, 24), (2, 4, 23, 5), (2, 5, 51, 21), (3, 6, 23, 2), (3, 7, 23, -1), (3, 8, 51, 22),
            (4, 9, 83, 211), (5, 10, 83, 111), (6, 11, 83, 211), (7, 12, 83, -211), (8, 13, 91, 11), (8, 14, 91, -11)],
}
COLORS = {"wb": {2: (0, 0), 3: (2, 0), 4: (1, 0), 5: (0, 1)}, "ue": {0: (0, 0), 2: (2, 0), 3: (1, 0), 4: (0, 1)},
          "flat": {1: (1, 0), 2: (0, 2), 3: (0, 0)}, "deep": {1: (3, 0), 2: (0, 0), 3: (3, 0), 4: (1, 0), 5: (0, 1), 6: (0, 2)},
          "rad": {1: (1, 0), 2: (0, 0), 3: (1, 0), 4: (2, 1), 5: (3, 0), 6: (0, 3)}}


def momenta(ev, conf):
    """directions of the partons spread out, what follows them around them"""
    n = len(ev)
    out, dirs = [None] * n, [None] * n
    for i in range(n):
        a = (i * 0.618034 + 0.37 * conf) % 1.0
        b = (i * 0.754878 + 0.21 * conf + 0.13) % 1.0
        up = [j for j in range(n) if ev[j][1] == ev[i][0]]
        if up and dirs[up[0]] is not None and abs(ev[i][2]) > 24:
            base = dirs[up[(i + conf) % len(up)]] or dirs[up[0]]
            dirs[i] = (base[0] + 1.6 * (a - 0.5), base[1] + 1.6 * (b - 0.5))
        else:
            dirs[i] = ((b - 0.5) * 4, (a - 0.5) * 6.2 if conf != 2 else math.pi + 1.1 * (a - 0.5))
        out[i] = sphere([1.0, 40.0, 7.5, 0.4, 15.0][(i * 3 + conf) % 5], *dirs[i])
    return out


def eta_phi(v):
    return math.asinh(v[2] / math.hypot(v[0], v[1])), math.atan2(v[1], v[0])


def clustered(S, name, conf=0, free=None, colors=(), final=(), marks="ends", ids="nodes"):
    ev = EVENTS[name]
    n = len(ev)
    S.hashes_like(range(8))
    ps = momenta(ev, conf)
    known = [list(p) for p in ps]
    moved = {}
    if free is not None:
        ps[free], _, fi, y = plane(S, "h", 2.0)
        moved[free] = (y, fi)
    t = [(a, b) for a, b, _, _ in ev]
    ends = [all(b != a for a, _ in t) for _, b in t]
    fin = [S.bool("f%d" % i) if i in final else ends[i] for i in range(n)]
    cols = [[S.int("c%d" % i, 0, 3, dtype="<i4"), S.int("a%d" % i, 0, 3, dtype="<i4")] if i in colors else list(COLORS[name].get(i, (7, 8))) for i in range(n)]
    num = (lambda x: x) if ids == "nodes" else (lambda x: -x - 1 if x % 2 else x + 7)
    st = [e[2] for e in ev]
    args = dict(pdg=S.arr([e[3] for e in ev], "<i4"), pmu=S.arr(ps, "<f8"), color=S.arr(cols, "<i4"), status=S.arr(st, "<i2"),
                edges=S.arr([[num(a), num(b)] for a, b in t], "<i4"), final=S.arr(fin, "<?"))
    g = S.gcl.Graphicle.from_numpy(**args)
    R = S.float("radius", 0.05, 8)
    keep = snapshot(S, g.pmu._data, g.adj._data, g.status._data, g.final._data, g.pdg._data, g.color._data)
    r = S.gcl.select.clusters(g, R)
    S.check(r.agg_op is S.gcl.data.MaskAggOp.OR, "aggregates to the union")
    # hard partons and what descends from them
    hs = [i for i in range(n) if abs(st[i]) in (22, 23, 24)]
    own = {}
    for i in hs:
        own[i] = below(t, t[i][1])
        own[i][i] = True
    leaves = [i for i in hs if not any(own[i][j] for j in hs if j != i)]
    masks = {i: list(own[i]) for i in leaves}
    # hadrons of several partons go to the nearest
    for v in sorted({a for (a, _), s in zip(t, st) if 80 <= abs(s) <= 90}, key=num):
        inc = [i for i in range(n) if t[i][1] == v]
        if not any(own[i][j] for i in hs for j in inc):
            continue
        for k in leaves:
            if not any(own[k][j] for j in inc):
                continue
            for h in range(n):
                if below(t, v)[h]:
                    near = inc[0]
                    if len(inc) > 1:
                        assert h not in moved
                        ds = sorted((dist(known[i], known[h], -0.1), i) for i in inc)
                        assert ds[1][0] - ds[0][0] > 1e-6
                        near = ds[0][1]
                    masks[k][h] = S.ite(fin[h], own[k][near], masks[k][h])
    # cones around coloured partons which are in no singlet
    parts = [i for i in leaves if abs(st[i]) == 23 and S.truth(S.any([cols[i][0] != 0, cols[i][1] != 0]))]
    inside = set()
    for q in (2, 3):
        for combo in itertools.combinations(parts, q):
            up, down = [cols[i][0] for i in combo], [cols[i][1] for i in combo]
            if S.truth(S.all([S.any([u == d for d in down]) for u in up] + [S.any([u == d for u in up]) for d in down])):
                inside |= set(combo)
    for k in parts:
        if k in inside:
            continue
        e0, f0 = eta_phi(known[k])
        if moved:
            # to the last digit the library's, so that the formulas agree exactly
            one = S.gcl.MomentumArray(S.arr([ps[k]], "<f8"))
            assert abs(float(one.eta[0]) - e0) < 1e-9 and abs(math.remainder(float(one.phi[0]) - f0, 2 * math.pi)) < 1e-9
            e0, f0 = float(one.eta[0]), float(one.phi[0])
            u = cmath.exp(complex(0, f0))
        for h in range(n):
            if masks[k][h] is False:
                continue
            if h in moved:
                p = ps[h]
                d = S.hypot(moved[h][0] - e0, S.atan2(p[1] * u.real - p[0] * u.imag, p[0] * u.real + p[1] * u.imag))
            else:
                e, f = eta_phi(known[h])
                d = math.hypot(e - e0, math.remainder(f - f0, 2 * math.pi))
            S.gap(d, R)
            masks[k][h] = S.all([masks[k][h], d < R])
    # the tree, from the top
    keys = dict(zip(hs, keys_of([ev[i][3] for i in hs])))
    parent = {j: min((i for i in hs if i != j and own[i][j]), key=lambda i: sum(own[i]), default=None) for j in hs}
    want = {}

    def visit(i):
        kids = [j for j in hs if parent[j] == i]
        if i is not None:
            below_ = [k for k in leaves if k == i or own[i][k]]
            # a parton with others below it: what they keep
            want[keys[i]] = [S.any([masks[k][h] for k in below_]) for h in range(n)]
        for j in kids:
            visit(j)
    if any(abs(s) == 22 for s in st):
        visit(None)
    else:
        want = {keys[i]: masks[i] for i in hs}
    S.check(type(r) is S.gcl.MaskGroup, "a mask group")
    S.check(list(r.keys()) == list(want), "one mask per parton, in the order of the tree: %s against %s" % (list(r.keys()), list(want)))
    rows = [h for h in range(n) if S.truth(fin[h])]
    for k, f in want.items():
        S.check(type(r[k]) is S.gcl.MaskArray and len(r[k]) == len(rows), k + ": a mask over the final-state particles")
        S.same(r[k]._data, [f[h] for h in rows], k + ": members")
    unchanged(S, keep, g.pmu._data, g.adj._data, g.status._data, g.final._data, g.pdg._data, g.color._data, what="event attribute")


def tasks(tier):
    q = tier == "quick"
    P = dict(_palette=[6, 5, 24, -24, -5, 21, 1, -1, 2, 11, 111, 211, -211, 22])
    out = []
    for name in EVENTS:
        for conf in (0, 1, 2) if q else range(5):
            out.append(("clustered", dict(name=name, conf=conf, ids="signed" if conf == 1 else "nodes", **P), 3))
    out += [("clustered", dict(name="wb", free=h, conf=c, **P), 4) for h, c in ((11, 0), (12, 2))]
    out += [("clustered", dict(name="flat", free=h, conf=1, **P), 4) for h in (4, 6)]
    out.append(("clustered", dict(name="deep", free=10, conf=2, **P), 4))
    out += [("clustered", dict(name="wb", colors=[i], conf=1, **P), 6) for i in (3, 4)]
    out += [("clustered", dict(name="flat", colors=[i], conf=2, **P), 6) for i in (1, 3)]
    out.append(("clustered", dict(name="deep", colors=[6], conf=0, **P), 6))
    out += [("clustered", dict(name="wb", final=[9, 11], conf=1, **P), 6), ("clustered", dict(name="ue", final=[5, 9, 13], conf=0, **P), 6),
            ("clustered", dict(name="flat", final=[3, 2, 6], conf=2, **P), 6)]
    if not q:
        out += [("clustered", dict(name=m, colors=list(c), conf=0, **P), 60) for m, c in (("wb", (3, 4)), ("flat", (1, 2)), ("deep", (3, 6)), ("ue", (2, 3)))]
        out += [("clustered", dict(name=m, final=list(f), conf=3, **P), 30) for m, f in (("wb", (8, 9, 11, 12)), ("ue", (9, 10, 12, 13, 14)), ("deep", (7, 8, 9, 10, 11)))]
        out += [("clustered", dict(name="deep", free=h, conf=c, colors=[3], **P), 40) for h in (7, 11) for c in (0, 4)]
    return out

"""C29 combining particles sums their four-momenta"""
import math
import warnings
from checks.common import *

FUNCTIONS = "calculate.combined_mass, aggregate_momenta, resultant_coords, weighted_centroid; data.MomentumArray arithmetic and coordinates"
BOUNDS = "combined_mass: 0 to 4 momenta of any components in [-64, 64], any weights in [-8, 8] (components of the sum such that its square is not within 0.1 of 0); aggregate_momenta: 1 to 4 momenta, 0 to 3 masks of any content; resultant_coords: any sum of 1 to 4 momenta of which one is unknown; weighted_centroid: 1 to 3 momenta, one of them any"
FIX = [[3.0, -4.0, 12.0, 14.0], [-1.5, 2.0, -6.0, 9.0], [8.0, 6.0, 0.0, 12.0]]
AXES = [[3.0, 4.0, 0.0, 6.0], [-4.0, 3.0, 3.75, 8.0], [0.0, 2.0, -1.5, 4.0]]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def total(vs):
    return [sum((v[c] for v in vs), 0.0) for c in range(4)]


def mass_is(S, m, t, what="mass of the sum"):
    d = t[3] * t[3] - t[0] * t[0] - t[1] * t[1] - t[2] * t[2]
    S.gap(d, 0, 1e-1)
    if S.truth(d > 0):
        S.check(m >= 0, what + ": not negative")
        S.close(S.square(m), d, what)
    else:
        S.close(m, 0.0, what + ": zero where its square is negative")


def mass(S, n, how, kind="array"):
    vs = [S.floats("p%d" % i, 4) for i in range(n)]
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    arg = p.data if kind == "struct" else p
    if how == "none":
        m = S.gcl.calculate.combined_mass(arg)
        w = [[1.0] * 4] * n
    else:
        w = [S.floats("w%d" % i, 4, -8, 8) for i in range(n)]
        if how == "half":
            w = [[w[i][c] if c < 1 else 1.0 for c in range(4)] for i in range(n)]
        W = S.arr(w, "<f8")
        if how == "struct":
            W = S.gcl.MomentumArray(W).data
        m = S.gcl.calculate.combined_mass(arg, W)
        if how != "struct":
            S.same(W, w, "weights left as they were")
    mass_is(S, m, total([[w[i][c] * vs[i][c] for c in range(4)] for i in range(n)]))
    S.same(p._data, vs, "momenta left as they were")


def edge_mass(S, sign):
    """squares of the sum close to and on both sides of zero"""
    u = S.float("u", 0.5, 4)
    v = [0.0, 3.0 * u, 4.0 * u, 5.0 * u + sign * 0.25]
    p = S.gcl.MomentumArray(S.arr([v, [1.0, 0.0, 0.0, 1.0]], "<f8"))
    mass_is(S, S.gcl.calculate.combined_mass(p[:1]), v)


def no_particles(S):
    p = S.gcl.MomentumArray()
    S.close(S.gcl.calculate.combined_mass(p), 0.0, "mass of nothing")
    p = S.gcl.MomentumArray(S.arr(FIX, "<f8"))
    S.raises(ValueError, lambda: S.gcl.calculate.combined_mass(p, [1.0, 2.0, 3.0]), "weights which are no array")


def aggregate(S, n, k, kind):
    vs = [S.floats("p%d" % i, 4) for i in range(n)]
    ms = [S.bools("m%d" % j, n) for j in range(k)]
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    masks = [S.arr(m, "<?") for m in ms]
    if kind == "mask":
        masks = [S.gcl.MaskArray(m) for m in masks]
    elif kind == "group":
        masks = [S.gcl.MaskGroup({"a": m, "b": m}) for m in masks]
    arg = iter(masks) if kind == "iter" else tuple(masks)
    out = S.gcl.calculate.aggregate_momenta(p, arg)
    S.check(type(out) is S.gcl.MomentumArray and len(out) == k, "one momentum for each mask")
    for j in range(k):
        for c in range(4):
            want = 0.0
            for i in range(n):
                want = want + S.ite(ms[j][i], vs[i][c], 0.0)
            S.close(out._data[j, c], want, "sum over the particles of the mask")
    S.same(p._data, vs, "momenta left as they were")
    for m, b in zip(masks, ms):
        S.same(m if kind == "iter" or kind == "array" else m.data, b, "masks left as they were")


def summed(S, n, i, forward=False):
    """momenta with any sum; (rows, pT, azimuth, exp eta, energy)"""
    p, f, w = S.float("s_t", 0.25, 64), S.angle("s_f"), S.exp(S.logvar("s_eta", 0.05, 20))
    e = S.float("s_e", 0.25, 64)
    z = p * (w - 1 / w) / 2
    S.assume(S.all([e - z > 1e-1, e + z > 1e-1]))
    t = [p * S.cos(f), p * S.sin(f), z, e]
    vs = [list(x) for x in FIX[:n - 1]]
    vs.insert(i, [t[c] - sum(x[c] for x in vs) for c in range(4)])
    return vs, t, p, f, w


def resultant(S, n, i, how):
    vs, t, pt, f, w = summed(S, n, i)
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    R = S.gcl.calculate.resultant_coords
    y, phi = {"default": lambda: R(p), "pseudo": lambda: R(p, True), "rapidity": lambda: R(p, pseudo=False)}[how]()
    if how == "rapidity":
        S.close(S.exp(2 * y) * (t[3] - t[2]), t[3] + t[2], "rapidity of the sum")
    else:
        u = S.exp(y)
        S.close(pt * (u - 1 / u), 2 * t[2], "pseudorapidity of the sum")
    S.close(S.cos(phi), S.cos(f), "azimuth of the sum: cosine")
    S.close(S.sin(phi), S.sin(f), "azimuth of the sum: sine")
    S.check(S.all([phi >= -math.pi - 1e-6, phi <= math.pi + 1e-6]), "azimuth within [-pi, pi]")
    S.same(p._data, vs, "momenta left as they were")


def centroid(S, n, i, how):
    vs = [list(x) for x in AXES[:n - 1]]
    pts = [math.hypot(x[0], x[1]) for x in vs]
    pt, f = S.float("p_t", 0.25, 64), S.angle("p_f")
    w = S.exp(S.logvar("p_eta", 0.05, 20))
    e = S.float("p_e", 0.25, 64)
    z = pt * (w - 1 / w) / 2
    S.assume(S.all([e - z > 1e-1, e + z > 1e-1]))
    vs.insert(i, [pt * S.cos(f), pt * S.sin(f), z, e])
    pts.insert(i, pt)
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    W = S.gcl.calculate.weighted_centroid
    y, phi = {"default": lambda: W(p), "pseudo": lambda: W(p, True), "rapidity": lambda: W(p, pseudo=False)}[how]()
    # coordinates of the single particles: property C27
    ref = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    ys = ref.rapidity if how == "rapidity" else ref.eta
    fs = ref.phi
    norm = sum(pts)
    S.close(y * norm, sum(pts[k] * ys[k] for k in range(n)), "mean of the rapidities")
    mean = sum(pts[k] * fs[k] for k in range(n)) / norm
    S.close(S.cos(phi), S.cos(mean), "mean of the azimuths: cosine")
    S.close(S.sin(phi), S.sin(mean), "mean of the azimuths: sine")
    S.check(S.all([phi >= -math.pi - 1e-6, phi <= math.pi + 1e-6]), "azimuth within [-pi, pi]")
    S.same(p._data, vs, "momenta left as they were")
    coords_kept(S, p, "pt", "rapidity" if how == "rapidity" else "eta", "phi")


def tasks(tier):
    q = tier == "quick"
    out = [("no_particles", {}), ("edge_mass", dict(sign=1)), ("edge_mass", dict(sign=-1))]
    for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        for kind in ("array", "struct"):
            out.append(("mass", dict(n=n, how="none", kind=kind)))
            for how in ("array", "struct", "half"):
                out.append(("mass", dict(n=n, how=how, kind=kind), n))
    for n in (1, 2, 3) if q else (1, 2, 3, 4, 5):
        for k in (0, 1, 2) if q else (0, 1, 2, 3):
            for kind in ("mask", "group", "array", "iter"):
                if n * k <= (4 if q else 9):
                    out.append(("aggregate", dict(n=n, k=k, kind=kind), n * k))
    for n, i in [(1, 0), (2, 1), (3, 0)] if q else [(n, i) for n in (1, 2, 3, 4) for i in range(n)]:
        for how in ("default", "pseudo", "rapidity"):
            out.append(("resultant", dict(n=n, i=i, how=how), 3))
    for n, i in [(1, 0), (2, 0), (2, 1)] if q else [(1, 0), (2, 0), (2, 1), (3, 1), (3, 0), (3, 2)]:
        for how in ("default", "pseudo", "rapidity"):
            out.append(("centroid", dict(n=n, i=i, how=how), 3))
    return out

"""C27 derived coordinates satisfy their defining relations"""
import math
import warnings
from checks.common import *

FUNCTIONS = "data.MomentumArray.x, y, z, energy, pt, eta, rapidity, phi, theta, mass, mass_t; calculate._rapidity, _root_diff_two_squares"
BOUNDS = "1 to 4 momenta with any real components in [-64, 64] (for the defining relations one of them unknown, at any position), pT above 0.01 (for the threshold: above 2e-10, or below 8e-11), e - |z| above 1e-6 or zero; along the beam axis included"
NAMES = ["pt", "mass", "mass_t", "eta", "rapidity", "phi", "theta", "x", "y", "z", "energy"]


def general(S, name, z=True):
    v = [S.float("%s_%s" % (name, c)) for c in "xyze"]
    return v


def transverse(S, v):
    """clearly above the pT threshold"""
    S.assume(v[0] * v[0] + v[1] * v[1] > 1e-4)


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def others(S, k, i):
    """fixed companions around the momentum under study"""
    out = [[3.0, -4.0, 12.0, 14.0], [-1.0, 2.0, -2.0, 5.0], [0.5, 0.0, -1.25, 2.0]][:k]
    return out[:i], out[i:]


def one(S, quantity, v, k=0, i=0, **kw):
    """the quantity of momentum v, held among k other momenta at position i"""
    a, b = others(S, k, i)
    rows_ = a + [v] + b
    p = S.gcl.MomentumArray(S.arr(rows_, "<f8"))
    r = quiet(lambda: getattr(p, quantity))
    S.check(r.shape == (k + 1,), "one value per momentum")
    if k:
        # the companions have the values they have on their own
        for j, w in enumerate(rows_):
            if j != i:
                own = quiet(lambda: getattr(S.gcl.MomentumArray(S.arr([w], "<f8")), quantity))
                S.close(r[j], own[0], "value of another momentum")
    S.close(S.plain(p._data), [[float(c) if not hasattr(c, "e") else c for c in w] for w in rows_] if S.sym else rows_, "components left as they were")
    return r[i]


def components(S, n):
    vs = [general(S, "p%d" % i) for i in range(n)]
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    for j, nm in enumerate(["x", "y", "z", "energy"]):
        S.same(getattr(p, nm), [v[j] for v in vs], nm)


def pt(S, k, i):
    v = general(S, "p")
    r = one(S, "pt", v, k, i)
    S.check(r >= 0, "pt is not negative")
    S.close(r * r, v[0] * v[0] + v[1] * v[1], "pt^2 = x^2 + y^2")


def mass(S, quantity, k, i):
    v = general(S, "p")
    r = one(S, quantity, v, k, i)
    p2 = v[2] * v[2] + (v[0] * v[0] + v[1] * v[1] if quantity == "mass" else 0)
    d = v[3] * v[3] - p2
    S.gap(d, 0, 1e-2)
    # signed square: fixes the sign, too
    q = S.square(r)
    S.close(q if S.truth(r > 0) else -q, d, "%s * |%s|" % (quantity, quantity))


def phi(S, k, i):
    v = general(S, "p")
    transverse(S, v)
    r = one(S, "phi", v, k, i)
    p = S.hypot(v[0], v[1])
    S.check(S.all([r <= math.pi + 1e-6, r >= -math.pi - 1e-6]), "phi within [-pi, pi]")
    S.close(p * S.cos(r), v[0], "pt cos(phi) = x")
    S.close(p * S.sin(r), v[1], "pt sin(phi) = y")


def theta(S, k, i):
    v = general(S, "p")
    m = S.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    S.assume(m > 1e-2)
    r = one(S, "theta", v, k, i)
    S.check(S.all([r <= math.pi + 1e-6, r >= -1e-6]), "theta within [0, pi]")
    S.close(m * S.cos(r), v[2], "|p| cos(theta) = z")
    S.close(m * S.sin(r), S.hypot(v[0], v[1]), "|p| sin(theta) = pt")


def eta(S, k, i):
    v = general(S, "p")
    transverse(S, v)
    r = one(S, "eta", v, k, i)
    m = S.sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2])
    u = S.exp(r + r)
    S.close(u * (m - v[2]), m + v[2], "exp(2 eta) (|p| - z) = |p| + z")


def rapidity(S, k, i):
    v = general(S, "p")
    S.assume(S.all([v[3] - v[2] > 1e-6, v[3] + v[2] > 1e-6]))
    r = one(S, "rapidity", v, k, i)
    u = S.exp(r + r)
    S.close(u * (v[3] - v[2]), v[3] + v[2], "exp(2 y) (e - z) = e + z")


def beam(S, k, i, sign):
    """along the beam axis"""
    z = S.float("z", 0.01, 64)
    zz = z if sign > 0 else -z
    inf = math.inf if sign > 0 else -math.inf
    e = S.choose("energy", [0, 1])
    v = [0.0, 0.0, zz, z if e == 0 else z + S.float("m", 0.01, 8)]
    r = one(S, "eta", v, k, i)
    S.same(r, inf, "eta along the beam")
    r = one(S, "rapidity", v, k, i)
    if e == 0:
        S.same(r, inf, "rapidity of a massless particle along the beam")
    else:
        u = S.exp(r + r)
        S.close(u * (v[3] - v[2]), v[3] + v[2], "rapidity of a massive particle along the beam")
    S.close(one(S, "theta", v, k, i), 0.0 if sign > 0 else math.pi, "theta along the beam")
    S.same(one(S, "pt", v, k, i), 0.0, "pt along the beam")


def threshold(S, k, i, below):
    v = general(S, "p")
    q = v[0] * v[0] + v[1] * v[1]
    if below == "zero":
        v[0] = v[1] = 0.0
    elif below:
        v = [S.float("x", -6e-11, 6e-11), S.float("y", -6e-11, 6e-11)] + v[2:]
    else:
        S.assume(q > 4e-20)
    a, b = others(S, k, i)
    p = S.gcl.MomentumArray(S.arr(a + [v] + b, "<f8"))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = p.phi
        n = len(w)
        kinds = [x.category for x in w]
    if below:
        S.check(S.isnan(r[i]), "azimuth of a particle below the threshold is NaN")
        S.check(len([c for c in kinds if issubclass(c, S.gcl.base.NumericalStabilityWarning)]) == 1, "a stability warning")
    else:
        S.check(not S.isnan(r[i]), "azimuth of a particle above the threshold is a number")
        S.check(n == 0, "no warning")
    for j in range(k + 1):
        if j != i:
            S.check(not S.isnan(r[j]), "azimuth of the other particles is a number")


def pair(S, quantities, n):
    """several unknown momenta at once: each value is the one the momentum has alone"""
    vs = [general(S, "p%d" % i) for i in range(n)]
    for v in vs:
        transverse(S, v)
        S.assume(S.all([v[3] - v[2] > 1e-2, v[3] + v[2] > 1e-2]))
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    for q in quantities:
        r = quiet(lambda: getattr(p, q))
        S.check(r.shape == (n,), "one value per momentum")
        for j, v in enumerate(vs):
            S.close(r[j], quiet(lambda: getattr(S.gcl.MomentumArray(S.arr([v], "<f8")), q))[0], q)
    S.same(p._data, vs, "components left as they were")


def empty(S):
    p = S.gcl.MomentumArray()
    for nm in NAMES:
        S.check(quiet(lambda: getattr(p, nm)).shape == (0,), "no values of an empty array")


def tasks(tier):
    q = tier == "quick"
    out = [("empty", {}), ("components", dict(n=1)), ("components", dict(n=3))]
    for k, i in ([(0, 0), (2, 1)] if q else [(0, 0), (1, 0), (1, 1), (2, 1), (3, 0), (3, 3)]):
        for f in (pt, phi, theta, eta, rapidity):
            out.append((f.__name__, dict(k=k, i=i), 3))
        for m in ("mass", "mass_t"):
            out.append(("mass", dict(quantity=m, k=k, i=i), 3))
        for s in (1, -1):
            out.append(("beam", dict(k=k, i=i, sign=s), 2))
        for b in (0, 1, "zero"):
            out.append(("threshold", dict(k=k, i=i, below=b), 2))
    for n in ((2,) if q else (2, 3, 4)):
        for qs in (["pt", "phi", "theta"], ["mass", "mass_t"], ["eta"], ["rapidity"]):
            out.append(("pair", dict(quantities=qs, n=n), 3))
    return out

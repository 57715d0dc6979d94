"""C30 splitting and rotating momenta is rigid and conserves the total"""
import math
from checks.common import *

FUNCTIONS = "transform.rotation_matrix, split_momentum, split_hardest, soft_hard_axis, _angles_to_axis, _axis_to_angles, _cos_sin, _momentum_to_numpy; calculate._angles_to_axis"
BOUNDS = "any rotation angle and axis angles; any energy fraction in [-2, 2] (split_hardest: (0, 0.5]); one momentum, or 1 to 5 momenta with one or two of them any components in [-64, 64] at any position (pT apart by 1e-3), the others fixed; axis given as named or plain pair, or left out"
FIX = [[3.0, -4.0, 12.0, 14.0], [-1.5, 2.0, -6.0, 9.0], [8.0, 6.0, 0.0, 12.0], [-4.0, -3.0, 1.25, 6.0], [0.0, 1.0, 7.0, 8.0]]


def unit(S, th, ph):
    return [S.sin(th) * S.cos(ph), S.sin(th) * S.sin(ph), S.cos(th)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def rotate(n, c, s, v):
    """v turned about the unit vector n by the angle with cosine c and sine s"""
    d = sum(x * y for x, y in zip(n, v))
    k = cross(n, v)
    return [c * v[i] + s * k[i] + (1 - c) * d * n[i] for i in range(3)]


def angles(S, special=None):
    if special is not None:
        return special
    return S.angle("theta"), S.angle("phi")


def matrix(S, th=None, ph=None, al=None):
    """every entry of the matrix"""
    T = S.gcl.transform
    th = S.angle("theta") if th is None else th
    ph = S.angle("phi") if ph is None else ph
    al = S.angle("alpha") if al is None else al
    R = T.rotation_matrix(al, T.SphericalAngle(th, ph))
    S.check(R.shape == (3, 3), "a 3 x 3 matrix")
    n = unit(S, th, ph)
    for j in range(3):
        col = rotate(n, S.cos(al), S.sin(al), [1.0 if i == j else 0.0 for i in range(3)])
        for i in range(3):
            S.close(R[i, j], col[i], "entry %d, %d" % (i, j))


def momentum(S, name):
    return [S.float("%s_%s" % (name, c)) for c in "xyze"]


def children(S, got, v, z, n, al):
    """the two rows are the split of v about n"""
    r = rotate(n, S.cos(al), S.sin(al), v[:3])
    for i in range(3):
        S.close(got[0, i], z * r[i], "first child: %s" % "xyz"[i])
        S.close(got[0, i] + got[1, i], v[i], "children add up to the parent: %s" % "xyz"[i])
    S.close(got[0, 3], z * v[3], "first child: energy")
    S.close(got[0, 3] + got[1, 3], v[3], "children add up to the parent: energy")


def split(S, named, how="2d"):
    T = S.gcl.transform
    v = momentum(S, "p")
    th, ph, al = S.angle("theta"), S.angle("phi"), S.angle("alpha")
    z = S.float("zf", -2, 2)
    p = S.gcl.MomentumArray(S.arr([v], "<f8"))
    if how == "subscript":
        p = S.gcl.MomentumArray(S.arr([FIX[0], v, FIX[1]], "<f8"))[1]
    out = T.split_momentum(p, z, al, T.SphericalAngle(th, ph) if named else (th, ph))
    S.check(type(out) is S.gcl.MomentumArray and len(out) == 2, "two momenta")
    children(S, out._data, v, z, unit(S, th, ph), al)
    S.same(p._data, [v], "parent left as it was")
    out._data[0, 0] = 1.0
    S.same(p._data, [v], "children do not share the parent's storage")


def too_many(S, n):
    T = S.gcl.transform
    p = S.gcl.MomentumArray(S.arr(FIX[:n], "<f8"))
    S.raises(ValueError, lambda: T.split_momentum(p, 0.25, S.angle("alpha"), (0.5, 0.25)), "several momenta")


def build(S, n, unknown):
    vs = [list(x) for x in FIX[:n]]
    for k, i in enumerate(unknown):
        vs[i] = momentum(S, "p%d" % k)
    q = [v[0] * v[0] + v[1] * v[1] for v in vs]
    for i in range(n):
        for j in range(i):
            if i in unknown or j in unknown:
                S.gap(q[i], q[j], 1e-2)
    return vs, q


def which(S, q, big=True):
    """row with the largest (smallest) transverse momentum"""
    b = 0
    for i in range(1, len(q)):
        if S.truth(q[i] > q[b] if big else q[i] < q[b]):
            b = i
    return b


def hardest(S, n, unknown, named=True):
    T = S.gcl.transform
    vs, q = build(S, n, unknown)
    th, ph, al = S.angle("theta"), S.angle("phi"), S.angle("alpha")
    z = S.float("zf", 0, 0.5)
    S.assume(z > 1e-3)
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    out = T.split_hardest(p, z, al, T.SphericalAngle(th, ph) if named else (th, ph))
    S.check(type(out) is S.gcl.MomentumArray and len(out) == n + 1, "one momentum more")
    h = which(S, q)
    rest = [v for i, v in enumerate(vs) if i != h]
    S.same(out._data[:n - 1], rest if rest else [], "the others keep their order")
    children(S, out._data[n - 1:], vs[h], z, unit(S, th, ph), al)
    S.same(p._data, vs, "momenta left as they were")
    coords_kept(S, p, "pt")


def no_axis(S, n, unknown):
    """axis left out: normal of the plane of the softest and the hardest"""
    T = S.gcl.transform
    vs, q = build(S, n, unknown)
    h, s = which(S, q), which(S, q, False)
    k = cross(vs[s][:3], vs[h][:3])
    k2 = k[0] * k[0] + k[1] * k[1] + k[2] * k[2]
    S.assume(k[0] * k[0] + k[1] * k[1] > 1e-2)
    m = S.sqrt(k2)
    nrm = [c / m for c in k]
    al = S.angle("alpha")
    z = 0.25
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    out = T.split_hardest(p, z, al)
    S.check(len(out) == n + 1, "one momentum more")
    rest = [v for i, v in enumerate(vs) if i != h]
    S.same(out._data[:n - 1], rest, "the others keep their order")
    children(S, out._data[n - 1:], vs[h], z, nrm, al)
    S.same(p._data, vs, "momenta left as they were")
    coords_kept(S, p, "pt")


def plane_axis(S, n, unknown):
    T = S.gcl.transform
    vs, q = build(S, n, unknown)
    h, s = which(S, q), which(S, q, False)
    k = cross(vs[s][:3], vs[h][:3])
    S.assume(k[0] * k[0] + k[1] * k[1] > 1e-2)
    m = S.sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2])
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    ax = T.soft_hard_axis(p)
    S.check(S.all([ax.theta >= -1e-6, ax.theta <= math.pi + 1e-6]), "inclination within [0, pi]")
    S.check(S.all([ax.phi >= -math.pi - 1e-6, ax.phi <= math.pi + 1e-6]), "azimuth within [-pi, pi]")
    u = unit(S, ax[0], ax[1])
    for i in range(3):
        S.close(u[i] * m, k[i], "normal of the plane: %s" % "xyz"[i])
    S.same(p._data, vs, "momenta left as they were")
    coords_kept(S, p, "pt")


def fraction(S, n, axis):
    """energy fractions are accepted exactly within (0, 0.5]"""
    T = S.gcl.transform
    z = S.float("zf", -4, 4)
    p = S.gcl.MomentumArray(S.arr(FIX[:n], "<f8"))
    f = lambda: T.split_hardest(p, z, 0.5, (0.5, 0.25) if axis else None)
    if S.truth(S.all([z > 0, z <= 0.5])):
        S.check(len(f()) == n + 1, "one momentum more")
    else:
        S.raises(ValueError, f, "fraction outside (0, 0.5]")
    S.same(p._data, FIX[:n], "momenta left as they were")


def alone(S):
    T = S.gcl.transform
    p = S.gcl.MomentumArray(S.arr([momentum(S, "p")], "<f8"))
    S.raises(ValueError, lambda: T.split_hardest(p, 0.25, S.angle("alpha")), "no plane with a single momentum")


def tasks(tier):
    q = tier == "quick"
    out = [("matrix", {}, 3), ("matrix", dict(th=0.0)), ("matrix", dict(ph=0.0)), ("alone", {})]
    out += [("split", dict(named=1), 3), ("split", dict(named=0), 3), ("split", dict(named=1, how="subscript"), 3)]
    out += [("too_many", dict(n=n)) for n in (2, 3)]
    out += [("fraction", dict(n=n, axis=a)) for n, a in ((1, 1), (2, 0), (3, 1))]
    cs = [(1, [0]), (2, [0]), (2, [1]), (3, [1]), (3, [0, 2])] if q else \
        [(1, [0])] + [(n, [i]) for n in (2, 3, 4, 5) for i in range(n)] + [(2, [0, 1]), (3, [0, 1]), (3, [0, 2]), (3, [1, 2]), (4, [1, 3]), (3, [0, 1, 2])]
    for n, u in cs:
        out.append(("hardest", dict(n=n, unknown=u, named=n % 2), 3))
        if n > 1:
            if len(u) == 1:
                out.append(("no_axis", dict(n=n, unknown=u), 4))
            out.append(("plane_axis", dict(n=n, unknown=u), 4))
    return out

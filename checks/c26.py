"""C26 delta_R is the distance in the rapidity-azimuth plane"""
import math
import warnings
from checks.common import *

FUNCTIONS = "data.MomentumArray.delta_R, eta, rapidity, _xy_pol; matrix.delta_R_aff, parton_hadron_distance; calculate._delta_R, _delta_R_symmetric, _thread_scope"
BOUNDS = "sets of 0 to 4 momenta; two of them with any components in [-64, 64] (pT above 0.1), or all with any rapidity difference / azimuth in turn, the others fixed; particles along the beam axis; 1 to 4 threads"
FIX = [[3.0, -4.0, 12.0, 14.0], [-1.5, 2.0, -6.0, 9.0], [8.0, 6.0, 0.0, 12.0], [-4.0, -3.0, 1.25, 6.0]]


def vec(S, name):
    v = [S.float("%s_%s" % (name, c)) for c in "xyze"]
    S.assume(v[0] * v[0] + v[1] * v[1] > 1e-2)
    S.assume(S.all([v[3] - v[2] > 1e-2, v[3] + v[2] > 1e-2]))
    return v


def dphi(S, a, b):
    return S.atan2(a[1] * b[0] - a[0] * b[1], a[0] * b[0] + a[1] * b[1])


def rapidities(A, pseudo):
    """(pseudo)rapidity of each momentum (property C27)"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return A.eta if pseudo else A.rapidity


def call(S, A, B, pseudo, how):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if how == "default":
            return A.delta_R(B)
        if how == "kw":
            return A.delta_R(B, pseudo=pseudo, threads=2)
        return A.delta_R(B, pseudo, 1)


def entry(S, n, m, i, j, pseudo, how="pos"):
    """entry (i, j), both momenta unknown"""
    a, b = vec(S, "a"), vec(S, "b")
    As, Bs = [list(x) for x in FIX[:n]], [list(x) for x in FIX[::-1][:m]]
    As[i], Bs[j] = a, b
    A, B = S.gcl.MomentumArray(S.arr(As, "<f8")), S.gcl.MomentumArray(S.arr(Bs, "<f8"))
    d = call(S, A, B, pseudo, how)
    S.check(d.shape == (n, m), "rows for the first set, columns for the second")
    ya, yb = rapidities(A.copy(), pseudo), rapidities(B.copy(), pseudo)
    for k in range(n):
        for l in range(m):
            S.close(d[k, l], S.hypot(ya[k] - yb[l], dphi(S, As[k], Bs[l])), "distance")
    S.same(A._data, As, "first set left as it was")
    S.same(B._data, Bs, "second set left as it was")
    for P, ref in ((A, ya), (B, yb)):
        S.close(rapidities(P, pseudo), ref, "rapidities left as they were")


def azimuth(S, cls, self_):
    """distance in azimuth only, around the circle"""
    f, g = S.angle("f"), S.angle("g")
    p, q = S.float("p", 0.1, 50), S.float("q", 0.1, 50)
    a, b = [p * S.cos(f), p * S.sin(f), 0.0, p + 1], [q * S.cos(g), q * S.sin(g), 0.0, q + 1]
    A = S.gcl.MomentumArray(S.arr([a, b], "<f8"))
    B = A if self_ else S.gcl.MomentumArray(S.arr([a, b], "<f8"))
    d = call(S, A, B, cls == "eta", "pos")
    for k, l in ((0, 1), (1, 0)):
        r = d[k, l]
        S.check(S.all([r >= 0, r <= math.pi + 1e-6]), "at most half a turn")
        S.close(S.cos(r), S.cos(f - g), "cosine of the distance is that of the difference")
    S.close(d[0, 0], 0.0, "no distance to itself")
    S.close(d[1, 1], 0.0, "no distance to itself")


def longitudinal(S, pseudo, self_, n):
    """distance in (pseudo)rapidity only"""
    y = [S.logvar("y%d" % i, 0.05, 20) for i in range(2)]
    vs = []
    for i in range(n):
        u = S.exp(y[i]) if i < 2 else 1
        e = 2.0 if pseudo else (u + 1 / u)
        vs.append([2.0, 0.0, u - 1 / u, e if not pseudo else 30.0] if pseudo else [1.5, 0.0, u - 1 / u, e])
    A = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    B = A if self_ else S.gcl.MomentumArray(S.arr(vs, "<f8"))
    d = call(S, A, B, pseudo, "default" if pseudo else "kw")
    u, v = S.exp(y[0]), S.exp(y[1])
    S.close(S.exp(d[0, 1]), S.ite(u > v, u / v, v / u), "rapidity distance")
    S.close(d[0, 1], d[1, 0], "symmetric")
    S.check(d[0, 1] >= 0, "not negative")


def symmetric(S, n, pseudo, how="pos"):
    """a set with itself against a set with a copy, and transposed"""
    vs = [list(x) for x in FIX[:n]]
    vs[0] = vec(S, "a")
    if n > 1:
        vs[-1] = vec(S, "b")
    A = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    B = A.copy()
    own, other, back = call(S, A, A, pseudo, how), call(S, A, B, pseudo, how), call(S, B, A, pseudo, how)
    S.check(own.shape == (n, n) and other.shape == (n, n), "square")
    for i in range(n):
        S.close(own[i, i], 0.0, "zero diagonal")
        for j in range(n):
            S.close(own[i, j], other[i, j], "with itself as with a copy")
            S.close(other[i, j], back[j, i], "symmetric in the two sets")
    S.same(A._data, vs, "momenta left as they were")
    S.close(rapidities(A, pseudo), rapidities(A.copy(), pseudo), "rapidities left as they were")


def beam(S, pseudo, self_, n=2):
    """particles along the beam axis"""
    z = [S.float("z%d" % i, 0.01, 64) for i in range(n)]
    s = [S.choose("s%d" % i, [1, -1]) for i in range(n)]
    vs = [[0.0, 0.0, si * zi, zi] for si, zi in zip(s, z)]
    A = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    B = A if self_ else S.gcl.MomentumArray(S.arr(vs, "<f8"))
    d = call(S, A, B, pseudo, "pos")
    for i in range(n):
        for j in range(n):
            S.same(d[i, j], 0.0 if s[i] == s[j] else math.inf, "same direction: no distance; opposite: infinite")


def mixed(S, pseudo, self_):
    """a particle along the beam next to one that is not"""
    z = S.float("z", 0.01, 64)
    s = S.choose("s", [1, -1])
    a = vec(S, "a")
    vs = [[0.0, 0.0, s * z, z], a]
    A = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    d = call(S, A, A if self_ else A.copy(), pseudo, "pos")
    S.same(d[0, 1], math.inf, "infinitely far from the beam")
    S.same(d[1, 0], math.inf, "infinitely far from the beam")
    S.close(d[1, 1], 0.0, "itself")


def weighted(S, n, m, i, j, exp, own=False):
    """the affinity functions: distances within a set, and distances weighted by a power of the first pT"""
    As, Bs = [list(x) for x in FIX[:n]], [list(x) for x in FIX[::-1][:m]]
    if own:
        As[i], pts = vec(S, "a"), [5.0, 2.5, 10.0][:n]
        pts[i] = None
    else:
        # parton pT of any size
        w = S.float("w", 2.0 ** -10, 2.0 ** 10) if exp in (-3, -2, -1, 0, 0.5, 1, 2) else 1.0
        As[i], pts = [3 * w, 4 * w, 12 * w, 14 * w], [5.0, 2.5, 10.0][:n]
        pts[i] = 5 * w
        Bs[j] = vec(S, "b")
    A, B = S.gcl.MomentumArray(S.arr(As, "<f8")), S.gcl.MomentumArray(S.arr(Bs, "<f8"))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if own:
            d = S.gcl.matrix.delta_R_aff(A)
            S.check(d.shape == (n, n), "square")
        else:
            d = S.gcl.matrix.parton_hadron_distance(A, B, exp) if exp is not None else S.gcl.matrix.parton_hadron_distance(A, B)
            S.check(d.shape == (n, m), "rows for the partons")
    ya, yb = rapidities(A.copy(), True), rapidities(B.copy(), True)
    for k in range(n):
        for l in range(n if own else m):
            if own:
                S.close(d[k, l], 0.0 if k == l else S.hypot(ya[k] - ya[l], dphi(S, As[k], As[l])), "distance within the set")
                continue
            dist = S.hypot(ya[k] - yb[l], dphi(S, As[k], Bs[l]))
            q = -0.1 if exp is None else exp
            if q == 0.5 and k == i:
                S.close(S.square(d[k, l]), pts[k] * S.square(dist), "distance times the power of the parton pT")
            else:
                f = 1.0
                if q == int(q):
                    for _ in range(abs(int(q))):
                        f = f * pts[k] if q > 0 else f / pts[k]
                else:
                    f = pts[k] ** q
                S.close(d[k, l], f * dist, "distance times the power of the parton pT")
    S.same(A._data, As, "first set left as it was")
    S.same(B._data, Bs, "second set left as it was")


def sizes(S, n, m, pseudo):
    A, B = S.gcl.MomentumArray(S.arr(FIX[:n], "<f8").reshape(-1, 4)), S.gcl.MomentumArray(S.arr(FIX[:m], "<f8").reshape(-1, 4))
    d = call(S, A, B, pseudo, "pos")
    S.check(d.shape == (n, m), "shape")
    S.check(call(S, A, A, pseudo, "pos").shape == (n, n), "shape of the distances within one set")


def tasks(tier):
    q = tier == "quick"
    out = [("sizes", dict(n=0, m=2, pseudo=True)), ("sizes", dict(n=2, m=0, pseudo=False)), ("sizes", dict(n=0, m=0, pseudo=True))]
    for ps in (True, False):
        out += [("entry", dict(n=1, m=1, i=0, j=0, pseudo=ps, how="pos"), 5), ("entry", dict(n=2, m=3, i=1, j=2, pseudo=ps, how="kw"), 6),
                ("symmetric", dict(n=2, pseudo=ps), 6), ("symmetric", dict(n=1, pseudo=ps), 3), ("symmetric", dict(n=2, pseudo=ps, how="kw"), 8)]
        for own in (True, False):
            out += [("beam", dict(pseudo=ps, self_=own), 3), ("mixed", dict(pseudo=ps, self_=own), 3), ("longitudinal", dict(pseudo=ps, self_=own, n=2), 5)]
    out.append(("entry", dict(n=3, m=2, i=0, j=1, pseudo=True, how="default"), 6))
    out.append(("weighted", dict(n=2, m=2, i=1, j=0, exp=None, own=True), 4))
    for e in (-2, -1, 0, 1, 0.5, None) if q else (-3, -2, -1, 0, 1, 2, 0.5, None, -0.1, 0.7, -1.5):
        out.append(("weighted", dict(n=2, m=2, i=0 if q else 1, j=1, exp=e), 4))
    for own in (True, False):
        out.append(("azimuth", dict(cls="eta", self_=own), 6))
    if not q:
        for ps in (True, False):
            out += [("symmetric", dict(n=3, pseudo=ps), 40), ("beam", dict(pseudo=ps, self_=True, n=3), 10), ("beam", dict(pseudo=ps, self_=False, n=3), 10),
                    ("longitudinal", dict(pseudo=ps, self_=True, n=3), 10), ("azimuth", dict(cls="eta" if ps else "y", self_=False), 10)]
            for i in range(3):
                for j in range(2):
                    out.append(("entry", dict(n=3, m=2, i=i, j=j, pseudo=ps), 10))
    return out

"""C25 partons and jets are matched one to one at least total cost"""
import itertools
import math
import warnings
from checks.common import *

FUNCTIONS = "select.arg_closest; calculate._assignment_cost, _delta_R; data.MomentumArray"
BUDGET = {"quick": 70}
BOUNDS = "1 to 3 focus and 1 to 4 candidate momenta, one focus or candidate momentum unknown (or two in azimuth only), the others fixed"
FIX = [[3.0, -4.0, 12.0, 14.0], [-1.5, 2.0, -6.0, 9.0], [8.0, 6.0, 0.0, 12.0], [-4.0, -3.0, 1.25, 6.0]]
CAND = [[4.0, 3.0, 1.0, 8.0], [0.0, -5.0, 2.5, 7.0], [-6.0, 8.0, -3.0, 12.0], [-0.75, 1.0, 0.5, 2.0]]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def vec(S, name, how):
    """an unknown momentum: in the transverse plane, along the beam, or both"""
    t = S.float(name + "_t", 0.5, 32) if "t" in how else 5.0
    c, s = (0.6, 0.8)
    if "f" in how:
        f = S.angle(name + "_f")
        c, s = S.cos(f), S.sin(f)
    w = S.exp(S.logvar(name + "_y", 0.1, 10)) if "y" in how else 1.5
    mt = t + 0.5
    return [t * c, t * s, mt * (w - 1 / w) / 2, mt * (w + 1 / w) / 2]


def costs(S, focus, cand):
    """the documented cost of every pair"""
    f, c = S.gcl.MomentumArray(S.arr(focus, "<f8")), S.gcl.MomentumArray(S.arr(cand, "<f8"))
    # rapidities: property C27, distances: property C26
    d = quiet(lambda: f.delta_R(c, pseudo=False))
    pts = [S.hypot(x[0], x[1]) for x in cand]
    m = len(cand)
    mean = sum(pts) / m
    vp = sum((x - mean) * (x - mean) for x in pts) / m
    out = []
    for i in range(len(focus)):
        row = [d[i, j] for j in range(m)]
        mu = sum(row) / m
        vd = sum((x - mu) * (x - mu) for x in row) / m
        p = S.hypot(focus[i][0], focus[i][1])
        cost = []
        for j in range(m):
            t = 0.0
            if m > 1:
                if S.truth(vd > 0):
                    t = t + 1 - S.exp(-0.5 * (1 / vd) * row[j] * row[j])
                if S.truth(vp > 0):
                    t = t + 1 - S.exp(-0.5 * (1 / vp) * (p - pts[j]) * (p - pts[j]))
            cost.append(t)
        out.append(cost)
    return out


def closest(S, n, m, who, how, threads=None):
    focus, cand = [list(x) for x in FIX[:n]], [list(x) for x in CAND[:m]]
    if "f" in who:
        focus[0] = vec(S, "f", how)
    if "c" in who:
        cand[m - 1] = vec(S, "c", how)
    F, C = S.gcl.MomentumArray(S.arr(focus, "<f8")), S.gcl.MomentumArray(S.arr(cand, "<f8"))
    # coordinates which have been read before
    quiet(lambda: (F.rapidity, C.pt))
    idx = quiet(lambda: S.gcl.select.arg_closest(F, C) if threads is None else S.gcl.select.arg_closest(F, C, threads))
    S.check(type(idx) is list and len(idx) == n, "a candidate for each focus")
    idx = [S.pick(i) for i in idx]
    S.check(all(0 <= i < m for i in idx) and len(set(idx)) == n, "different candidates")
    d = costs(S, focus, cand)
    mine = sum(d[i][j] for i, j in enumerate(idx))
    for p in itertools.permutations(range(m), n):
        if list(p) != idx:
            S.check(mine <= sum(d[i][j] for i, j in enumerate(p)) + 1e-9, "no assignment costs less")
    S.same(F._data, focus, "focus left as it was")
    S.same(C._data, cand, "candidates left as they were")


def coincide(S, n, m):
    """candidates which all are the same momentum, and one of the focus momenta"""
    v = vec(S, "v", "t")
    focus = [v] + [list(x) for x in FIX[1:n]]
    F, C = S.gcl.MomentumArray(S.arr(focus, "<f8")), S.gcl.MomentumArray(S.arr([v] * m, "<f8"))
    idx = quiet(lambda: S.gcl.select.arg_closest(F, C))
    idx = [S.pick(i) for i in idx]
    S.check(len(idx) == n and all(0 <= i < m for i in idx) and len(set(idx)) == n, "different candidates")


def inputs_kept(S, n, m, late):
    focus, cand = [list(x) for x in FIX[:n]], [list(x) for x in CAND[:m]]
    focus[0] = vec(S, "f", "t")
    F, C = S.gcl.MomentumArray(S.arr(focus, "<f8")), S.gcl.MomentumArray(S.arr(cand, "<f8"))
    names = ("rapidity", "pt", "eta", "phi")
    if not late:
        quiet(lambda: [getattr(x, k) for x in (F, C) for k in names])
    quiet(lambda: S.gcl.select.arg_closest(F, C))
    coords_kept(S, F, *names, what="focus")
    coords_kept(S, C, *names, what="candidates")
    S.same(F._data, focus, "focus left as it was")
    S.same(C._data, cand, "candidates left as they were")


def tasks(tier):
    q = tier == "quick"
    out = [("inputs_kept", dict(n=1, m=2, late=True), 4), ("inputs_kept", dict(n=1, m=2, late=False), 4), ("inputs_kept", dict(n=2, m=3, late=False), 6)]
    out += [("coincide", dict(n=n, m=m)) for n, m in ((1, 1), (1, 2), (2, 2))]
    for n, m in ((1, 1), (1, 2), (1, 3), (2, 2), (2, 3)) + (() if q else ((3, 3), (2, 4), (3, 4))):
        for who in ("f", "c"):
            for how in (("t", "f") if (n, m, who) == (1, 2, "c") else ("t", "y", "f")) if q else ("t", "y", "f", "tf", "ty", "fy", "tfy"):
                out.append(("closest", dict(n=n, m=m, who=who, how=how, threads=3 if (n, m) == (2, 2) else None), 1 if m == 1 else 6 if n == 1 else 12))
    if not q:
        for how in ("t", "y", "f"):
            out.append(("closest", dict(n=2, m=2, who="fc", how=how), 5))
    return out

"""C28 boosts and rotations shift the coordinate and preserve invariants"""
import math
import warnings
from checks.common import *

FUNCTIONS = "data.MomentumArray.shift_rapidity, shift_eta, shift_phi, copy; calculate.resultant_coords, _rapidity, _root_diff_two_squares"
BOUNDS = "any shift with exp(shift) in [1/20, 20] (rotations: any angle); 1 to 4 momenta, one of them any components in [-64, 64] at any position (pT above 0.1, e - |z| above 0.01, and e^2 - |p|^2 away from 0 for masses), the others fixed, for boosts also momenta along the beam, at rest, spacelike or of negative energy; scalar shifts, one shift per momentum, and one-element arrays; iterative shift_eta for one unknown momentum among 0 to 2 fixed ones, up to 2 corrections"
FIX = [[3.0, -4.0, 12.0, 14.0], [-1.5, 2.0, -6.0, 9.0], [8.0, 6.0, 0.0, 12.0]]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def momentum(S, name="p"):
    v = [S.float("%s_%s" % (name, c)) for c in "xyze"]
    S.assume(v[0] * v[0] + v[1] * v[1] > 1e-2)
    S.assume(S.all([v[3] - v[2] > 1e-2, v[3] + v[2] > 1e-2]))
    return v


def by_eta(S):
    """a momentum given through its pT, azimuth and exp(pseudorapidity)"""
    p, f, w = S.float("p_t", 0.25, 64), S.angle("p_f"), S.exp(S.logvar("p_eta", 0.05, 20))
    z = p * (w - 1 / w) / 2
    e = S.float("p_e", 0.25, 64)
    S.assume(S.all([e - z > 1e-1, e + z > 1e-1]))
    return [p * S.cos(f), p * S.sin(f), z, e], p, w


def build(S, n, i, eta=False):
    vs = [list(x) for x in FIX[:n - 1]]
    v = by_eta(S)[0] if eta else momentum(S)
    vs.insert(i, v)
    return v, vs, S.gcl.MomentumArray(S.arr(vs, "<f8"))


def shifts(S, n, how):
    """(argument, shift of each momentum)"""
    if how == "scalar":
        y = S.logvar("shift", 0.05, 20)
        return y, [y] * n
    if how == "one":
        y = S.logvar("shift", 0.05, 20)
        return S.arr([y], "<f8"), [y] * n
    ys = [S.logvar("shift%d" % k, 0.05, 20) for k in range(n)]
    return S.arr(ys, "<f8"), ys


def boost_of(S, got, v, u, what):
    """got is v boosted by log(u) along the beam"""
    S.close(got[0], v[0], what + ": x kept")
    S.close(got[1], v[1], what + ": y kept")
    S.close(got[3] + got[2], (v[3] + v[2]) * u, what + ": e + z scaled")
    S.close((got[3] - got[2]) * u, v[3] - v[2], what + ": e - z scaled")


def rapidity(S, n, i, how):
    v, vs, p = build(S, n, i)
    s, each = shifts(S, n, how)
    out = p.shift_rapidity(s)
    S.check(type(out) is S.gcl.MomentumArray and len(out) == n, "as many momenta")
    for k in range(n):
        boost_of(S, out._data[k], vs[k], S.exp(each[k]), "momentum")
    S.same(p._data, vs, "original left as it was")
    coords_kept(S, p, "rapidity", what="original")


def boost_any(S, n, i, how):
    """momenta with more momentum than energy, along the beam, at rest or of negative energy are boosted, too"""
    v = [S.float("p_%s" % c) for c in "xyze"]
    vs = [[0.0, 0.0, -3.0, 3.0], [0.0, 0.0, 0.0, 0.0], [3.0, 0.0, 4.0, 2.0]][:n - 1]
    vs.insert(i, v)
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    s, each = shifts(S, n, how)
    out = quiet(lambda: p.shift_rapidity(s))
    for k in range(n):
        boost_of(S, out._data[k], vs[k], S.exp(each[k]), "any momentum")
    S.same(p._data, vs, "original left as it was")


def rapidity_coords(S, n, i):
    """in terms of the derived coordinates"""
    v, vs, p = build(S, n, i)
    y = S.logvar("shift", 0.05, 20)
    out = p.shift_rapidity(y)
    after = out.rapidity
    for k in range(n):
        # the rapidity (property C27) is log((e + z)/(e - z))/2
        S.close(S.exp(2 * after[k]) * (vs[k][3] - vs[k][2]), S.exp(2 * y) * (vs[k][3] + vs[k][2]), "rapidity shifted")
    S.same(p._data, vs, "original left as it was")
    coords_kept(S, p, "rapidity", what="original")


def rapidity_masses(S, n, i, quantity):
    v, vs, p = build(S, n, i)
    y = S.logvar("shift", 0.05, 20)
    ds = [w[3] * w[3] - w[2] * w[2] - (w[0] * w[0] + w[1] * w[1] if quantity == "mass" else 0) for w in vs]
    S.gap(ds[i], 0, 1e-1)
    out = p.shift_rapidity(y)
    after = getattr(out, quantity)
    for k in range(n):
        d = ds[k]
        r = after[k]
        # signed square: fixes the sign of the mass, too
        q = S.square(r)
        S.close(q if S.truth(r > 0) else -q, d, "%s kept" % quantity)
    S.same(p._data, vs, "original left as it was")


def there_and_back(S, n, i, kind):
    v, vs, p = build(S, n, i, kind == "eta")
    if kind == "phi":
        a = S.angle("shift")
        back = p.shift_phi(a).shift_phi(-a)
        cols = range(4)
    elif kind == "rapidity":
        y = S.logvar("shift", 0.05, 20)
        back = p.shift_rapidity(y).shift_rapidity(-y)
        cols = range(4)
    else:
        y = S.logvar("shift", 0.05, 20)
        back = quiet(lambda: p.shift_eta(y, experimental=True).shift_eta(-y, experimental=True))
        cols = range(3)
    for k in range(n):
        for c in cols:
            S.close(back._data[k, c], vs[k][c], "shifting back restores %s" % "xyze"[c])


def phi(S, n, i, how):
    vs = [list(x) for x in FIX[:n - 1]]
    vs.insert(i, [S.float("p_%s" % c) for c in "xyze"])
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    if how == "scalar":
        a = S.angle("shift")
        each = [a] * n
    elif how == "int":
        a = S.choose("turns", [0])
        each = [a] * n
    else:
        each = [S.angle("shift%d" % k) for k in range(1 if how == "one" else n)]
        a = S.arr(each, "<f8")
        if how == "one":
            each = each * n
    out = p.shift_phi(a)
    S.check(type(out) is S.gcl.MomentumArray and len(out) == n, "as many momenta")
    for k in range(n):
        c, s = S.cos(each[k]), S.sin(each[k])
        S.close(out._data[k, 0], c * vs[k][0] - s * vs[k][1], "x rotated")
        S.close(out._data[k, 1], s * vs[k][0] + c * vs[k][1], "y rotated")
        S.same(out._data[k, 2:], vs[k][2:], "z and e kept")
    S.same(p._data, vs, "original left as it was")


def eta(S, n, i, how):
    """the experimentalist version"""
    vs = [list(x) for x in FIX[:n - 1]]
    v, pt, w = by_eta(S)
    vs.insert(i, v)
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    s, each = shifts(S, n, how)
    out = quiet(lambda: p.shift_eta(s, experimental=True))
    S.check(type(out) is S.gcl.MomentumArray and len(out) == n, "as many momenta")
    for k in range(n):
        S.same(out._data[k, :2], vs[k][:2], "x and y kept")
        S.check(S.isnan(out._data[k, 3]), "energy is NaN")
        u = S.exp(each[k])
        if k == i:
            S.close(out._data[k, 2], pt * (w * u - 1 / (w * u)) / 2, "eta shifted")
        else:
            x = vs[k]
            pt2 = x[0] * x[0] + x[1] * x[1]
            q = (math.sqrt(pt2 + x[2] * x[2]) + x[2]) * u
            S.close(out._data[k, 2], (q - pt2 / q) / 2, "eta of another momentum shifted")
    S.same(p._data, vs, "original left as it was")
    coords_kept(S, p, "eta", "pt", what="original")


# a massive sum with binary-exact pT, |p|, exp(eta), exp(y) and transverse mass
SUM = [0.75, 1.0, 2.34375, 3.90625]
SUM_PT, SUM_W = 1.25, 4.0
PART = [[0.5, -1.0, 0.25, 1.25], [-0.25, 0.5, 2.0, 2.25]]


def totals(S, n, vary):
    """(momenta, pT of the sum, exp of its pseudorapidity)

    shift: fixed momenta with a massive sum; massless: a single massless momentum
    """
    if vary == "massless":
        p, w, f = S.float("p_t", 0.25, 64), S.exp(S.logvar("p_eta", 0.05, 20)), S.angle("p_f")
        return [[p * S.cos(f), p * S.sin(f), p * (w - 1 / w) / 2, p * (w + 1 / w) / 2]], p, w
    vs = [list(x) for x in PART[:n - 1]]
    vs.append([SUM[c] - sum(x[c] for x in vs) for c in range(4)])
    return vs, SUM_PT, SUM_W


def eta_boost(S, n, corrections, vary):
    """the iterative version: a boost of the whole set, which reaches its target unless it warns"""
    vs, pt, w = totals(S, n, vary)
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    s = S.logvar("shift", 0.05, 20)
    u = S.exp(s)
    S.gap(u, 1, 1e-2)
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        out = p.shift_eta(s, max_corrections=corrections)
        slow = [x for x in wl if "converge" in str(x.message)]
    d = out._data
    S.check(len(out) == n, "as many momenta")
    if corrections == 0:
        S.same(d, vs, "no correction allowed: momenta kept")
        S.check(len(slow) == 1, "complains when it cannot reach the target")
        return
    tot = [sum(x[c] for x in vs) for c in range(4)]
    z = sum(d[k, 2] for k in range(n))
    S.close(z, pt * (w * u - 1 / (w * u)) / 2, "pseudorapidity of the sum shifted")
    a, b = sum(d[k, 3] + d[k, 2] for k in range(n)), tot[3] + tot[2]
    for k in range(n):
        S.close(d[k, 0], vs[k][0], "x kept")
        S.close(d[k, 1], vs[k][1], "y kept")
        if n > 1:
            S.close((d[k, 3] + d[k, 2]) * b, (vs[k][3] + vs[k][2]) * a, "e + z scaled alike")
        S.close((d[k, 3] - d[k, 2]) * a, (vs[k][3] - vs[k][2]) * b, "e - z scaled inversely")
    S.same(p._data, vs, "original left as it was")
    coords_kept(S, p, "eta", "pt", what="original")


def eta_each(S, n, i):
    """one shift per momentum: each is boosted on its own"""
    vs, each = [list(x) for x in FIX[:n]], [0.75, -0.5, 0.25][:n]
    each[i] = S.logvar("shift", 0.05, 20)
    S.gap(S.exp(each[i]), 1, 1e-2)
    vs[i] = SUM
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    out = quiet(lambda: p.shift_eta(S.arr(each, "<f8"), max_corrections=1))
    S.check(len(out) == n, "as many momenta")
    for k in range(n):
        x, d, u = vs[k], out._data[k], S.exp(each[k])
        S.close(d[0], x[0], "x kept")
        S.close(d[1], x[1], "y kept")
        pt = SUM_PT if k == i else math.hypot(x[0], x[1])
        w = SUM_W if k == i else (math.hypot(pt, x[2]) + x[2]) / pt
        S.close(d[2], pt * (w * u - 1 / (w * u)) / 2, "pseudorapidity shifted")
        S.close(S.square(d[3]) - S.square(d[2]), x[3] * x[3] - x[2] * x[2], "transverse mass kept")
    S.same(p._data, vs, "original left as it was")
    coords_kept(S, p, "eta", "pt", what="original")


def nothing(S):
    p = S.gcl.MomentumArray()
    y = S.logvar("shift", 0.05, 20)
    S.check(len(p.shift_rapidity(y)) == 0 and len(p.shift_phi(y)) == 0 and len(p.shift_eta(y, True)) == 0, "nothing to shift")


def tasks(tier):
    q = tier == "quick"
    out = [("nothing", {})]
    spots = [(1, 0), (3, 1)] if q else [(n, i) for n in (1, 2, 3, 4) for i in range(n)]
    for n, i in spots:
        n_, i_ = min(n, 4), i
        for how in ("scalar", "array", "one"):
            out.append(("rapidity", dict(n=n_, i=i_, how=how), 2))
            out.append(("boost_any", dict(n=n_, i=i_, how=how), 2))
            out.append(("phi", dict(n=n_, i=i_, how=how), 2))
            out.append(("eta", dict(n=n_, i=i_, how=how), 3))
        out.append(("rapidity_coords", dict(n=n_, i=i_), 3))
        for m in ("mass", "mass_t"):
            out.append(("rapidity_masses", dict(n=n_, i=i_, quantity=m), 3))
        for kind in ("rapidity", "phi", "eta"):
            out.append(("there_and_back", dict(n=n_, i=i_, kind=kind), 3))
        out.append(("phi", dict(n=n_, i=i_, how="int")))
    for c in (0, 1, 2):
        out.append(("eta_boost", dict(n=1, corrections=c, vary="massless"), 4))
        for n in (1, 2, 3):
            out.append(("eta_boost", dict(n=n, corrections=c, vary="shift"), 4))
    for n, i in ([(1, 0), (2, 1)] if q else [(1, 0), (2, 0), (2, 1), (3, 1), (3, 2)]):
        out.append(("eta_each", dict(n=n, i=i), 4))
    return out

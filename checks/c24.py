"""C24 centroid pruning"""
import math
import warnings
from checks.common import *

FUNCTIONS = "select.centroid_prune, _param_check; calculate.resultant_coords; data.MomentumArray.__getitem__, eta, phi, _xy_pol, MaskArray"
BOUNDS = "0 to 4 momenta of which one (two in the thorough tier) has any components in [-64, 64] (pT above 0.1), any radius in [-1, 8], any centre, any mask; distances not within 1e-3 of the radius; distance in pseudorapidity alone and azimuth alone: any values; particles along the beam"
FIX = [[3.0, -4.0, 12.0, 14.0], [-1.5, 2.0, -6.0, 9.0], [8.0, 6.0, 0.0, 12.0], [-4.0, -3.0, 1.25, 6.0]]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def vec(S, name):
    v = [S.float("%s_%s" % (name, c)) for c in "xyze"]
    S.assume(v[0] * v[0] + v[1] * v[1] > 1e-2)
    return v


def prune(S, p, r, mask=None, centre=None, how="kw"):
    f = S.gcl.select.centroid_prune
    if mask is None and centre is None:
        return quiet(lambda: f(p, r))
    if how == "pos":
        return quiet(lambda: f(p, r, mask, centre))
    kw = {k: v for k, v in (("mask", mask), ("centre", centre)) if v is not None}
    return quiet(lambda: f(p, radius=r, **kw))


def select_rows(S, n, how):
    """(mask argument, rows it selects)"""
    if how is None:
        return None, list(range(n))
    b = S.bools("m", n)
    rows_ = [i for i in range(n) if S.truth(b[i])]
    if how == "group":
        return S.gcl.MaskGroup({"a": S.gcl.MaskArray(S.arr(b, "<?")), "b": S.gcl.MaskArray(S.arr(b, "<?"))}), rows_
    if how == "array":
        return S.arr(b, "<?"), rows_
    return S.gcl.MaskArray(S.arr(b, "<?")), rows_


def judge(S, got, n, rows_, vs, etas, centre, r, msg):
    """got marks exactly the selected particles within r of the centre"""
    S.check(type(got) is S.gcl.MaskArray and len(got) == n, msg + ": a mask over all particles")
    em, fm = centre
    for i in range(n):
        if i not in rows_:
            S.check(S.Not(got._data[i]), msg + ": particles outside the selection stay out")
            continue
        c, s = S.cos(fm), S.sin(fm)
        d = S.hypot(etas[i] - em, S.atan2(vs[i][1] * c - vs[i][0] * s, vs[i][0] * c + vs[i][1] * s))
        S.gap(d, r)
        S.check(S.iff(got._data[i], d < r), msg + ": marked if and only if within the radius")


def given(S, n, unknown, mask, how="kw"):
    """around a given centre"""
    vs = [list(x) for x in FIX[:n]]
    for i in unknown:
        vs[i] = vec(S, "p%d" % i)
    p = S.gcl.MomentumArray(S.arr(vs, "<f8").reshape(-1, 4))
    r = S.float("r", -1, 8)
    centre = (S.float("eta_mid", -5, 5), S.angle("phi_mid"))
    m, rows_ = select_rows(S, n, mask)
    before = snapshot(S, m) if mask in ("mask", "group") else None
    got = prune(S, p, r, m, centre, how)
    etas = quiet(lambda: S.gcl.MomentumArray(S.arr(vs, "<f8").reshape(-1, 4)).eta)
    judge(S, got, n, rows_, vs, etas, centre, r, "given centre")
    S.same(p._data, vs, "momenta left as they were")
    if before:
        unchanged(S, before, m, what="mask")
    quiet(lambda: coords_kept(S, p, "eta"))


def own(S, n, unknown, mask):
    """around the direction of the summed momentum of the selected particles"""
    vs = [list(x) for x in FIX[:n]]
    for i in unknown:
        vs[i] = vec(S, "p%d" % i)
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    r = S.float("r", -1, 8)
    m, rows_ = select_rows(S, n, mask)
    if not rows_:
        return
    tot = [sum(vs[i][c] for i in rows_) for c in range(3)]
    S.assume(tot[0] * tot[0] + tot[1] * tot[1] > 1e-2)
    got = prune(S, p, r, m)
    # direction of a sum: property C29
    centre = quiet(lambda: S.gcl.calculate.resultant_coords(S.gcl.MomentumArray(S.arr([vs[i] for i in rows_], "<f8"))))
    again = prune(S, p, r, m, centre)
    etas = quiet(lambda: S.gcl.MomentumArray(S.arr(vs, "<f8")).eta)
    for i in range(n):
        if i not in rows_:
            S.check(S.Not(got._data[i]), "particles outside the selection stay out")
        else:
            d = S.hypot(etas[i] - centre[0], S.atan2(vs[i][1] * tot[0] - vs[i][0] * tot[1], vs[i][0] * tot[0] + vs[i][1] * tot[1]))
            S.gap(d, r)
            S.check(S.iff(got._data[i], d < r), "marked if and only if within the radius of the summed momentum")
            S.check(S.iff(again._data[i], got._data[i]), "as with that centre given")
    S.same(p._data, vs, "momenta left as they were")


def along_eta(S, n):
    """distance in pseudorapidity alone"""
    w = [S.exp(S.logvar("eta%d" % i, 0.05, 20)) for i in range(n)]
    rho = S.logvar("r", 1.01, 20)
    c = S.logvar("c", 0.05, 20)
    vs = [[5.0, 0.0, 2.5 * (u - 1 / u), 70.0] for u in w]
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    got = prune(S, p, rho, None, (c, 0.0))
    R, C = S.exp(rho), S.exp(c)
    for i, u in enumerate(w):
        q = S.ite(u > C, u / C, C / u)
        S.gap(q, R, 1e-2)
        S.check(S.iff(got._data[i], q < R), "pseudorapidity distance against the radius")


def along_phi(S, conf, far=False):
    """distance in azimuth alone, around the circle"""
    f, g = S.angle("f"), S.angle("g")
    t = S.float("pt", 0.2, 50)
    vs = [[t * S.cos(f), t * S.sin(f), 0.0, 2 * t + 1]]
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    turns = {"plain": 0.0, "more": 2 * math.pi, "less": -2 * math.pi, "many": 4 * math.pi, "back": -6 * math.pi}[conf]
    r = 3.5 if far else S.angle("r")
    S.assume(r > 0)
    got = prune(S, p, r, None, (0.0, g + turns))
    c = S.cos(f - g)
    S.compare_angles()
    if far:
        S.check(got._data[0], "nothing is farther than half a turn")
    else:
        S.gap(c, S.cos(r), 1e-2)
        S.check(S.iff(got._data[0], c > S.cos(r)), "azimuth distance against the radius")


def beam(S, mask):
    """particles along the beam are infinitely far from any centre off it"""
    z = S.float("z", 0.01, 64)
    s = S.choose("s", [1, -1])
    a = vec(S, "a")
    vs = [[0.0, 0.0, s * z, z], a]
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    m, rows_ = select_rows(S, 2, mask)
    r = S.float("r", 0.1, 50)
    got = prune(S, p, r, m, (S.float("eta_mid", -5, 5), 0.5), "pos")
    S.check(S.Not(got._data[0]), "beam particle is out")


def empty(S):
    p = S.gcl.MomentumArray()
    got = prune(S, p, S.float("r", 0, 8), None, (0.5, 0.5))
    S.check(type(got) is S.gcl.MaskArray and len(got) == 0, "mask over no particles")
    S.raises(ValueError, lambda: S.gcl.select.centroid_prune(p.data, 1.0), "momenta of another type")


def tasks(tier):
    q = tier == "quick"
    out = [("empty", {})]
    for mask in (None, "mask", "group", "array"):
        out.append(("given", dict(n=2, unknown=[1], mask=mask), 6))
        out.append(("own", dict(n=2, unknown=[0], mask=mask), 8))
    out += [("given", dict(n=1, unknown=[0], mask=None, how="pos"), 4), ("given", dict(n=3, unknown=[0], mask="mask", how="pos"), 10), ("own", dict(n=1, unknown=[0], mask="mask"), 4),
            ("own", dict(n=3, unknown=[1], mask=None), 8), ("beam", dict(mask=None), 3), ("beam", dict(mask="mask"), 3)]
    for n in (1, 2):
        out.append(("along_eta", dict(n=n), 4 * n))
    out += [("along_phi", dict(conf=c), 4) for c in ("plain", "more", "less", "many", "back")] + [("along_phi", dict(conf="plain", far=True), 2)]
    if not q:
        out += [("given", dict(n=2, unknown=[0, 1], mask=m), 30) for m in (None, "mask")]
        out += [("given", dict(n=4, unknown=[2], mask="mask"), 40), ("own", dict(n=3, unknown=[0], mask="mask"), 40), ("own", dict(n=2, unknown=[0, 1], mask=None), 60), ("along_eta", dict(n=3), 30)]
    return out

"""C38 jet clusters are masks over the input in descending transverse momentum"""
import warnings
from checks.common import *

FUNCTIONS = "select.fastjet_clusters; data.MomentumArray (from a record array), pt, eta, __getitem__, MaskArray"
BOUNDS = "0 to 4 particles of any momenta; any 0 to 3 jets that FastJet may find (directions and sizes unknown, with transverse momenta apart by a relative 1e-3 and pseudorapidities off the cut; up to 3 constituents each, in any order); any radius, exponent, pT cut, eta cut with exp(cut) in [1.05, 20], top_k from -2 to 5 or a non-integer"
ASSUMES = "FastJet: any jets with transverse momentum at least the given cut, in any order, constituent lists in the order of the jets"
FIX = [(3.0, -4.0), (-8.0, 6.0), (5.0, 12.0)]
RAP = [2.0, 0.25, 4.0]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def particles(S, n):
    vs = [S.floats("p%d" % i, 4) for i in range(n)]
    return vs, S.gcl.MomentumArray(S.arr(vs, "<f8") if n else S.gcl.data.np.zeros((0, 4)))


def jets(S, m, n, unknown, sizes):
    """m jets [(px, py, pz, E, members)], their transverse momenta and exp(pseudorapidity); one with any momentum"""
    out, pts, ws = [], [], []
    for j in range(m):
        if j in unknown:
            p, f, w = S.float("pt%d" % j, 0.25, 64), S.angle("f%d" % j), S.exp(S.logvar("eta%d" % j, 0.04, 25))
            x, y = p * S.cos(f), p * S.sin(f)
        else:
            (x, y), w = FIX[j], RAP[j]
            p = (5.0, 10.0, 13.0)[j]
        z = p * (w - 1 / w) / 2
        members = [S.int("who%d_%d" % (j, c), 0, n - 1) for c in range(sizes[j])]
        out.append((x, y, z, 70.0 + 800 * j, members))
        pts.append(p)
        ws.append(w)
    for a in range(m):
        for b in range(a):
            S.gap(pts[a], pts[b])
    return out, pts, ws


def expected(S, n, found, pts, ws, pt_cut, cut_w, top_k):
    """masks in descending pT, filtered, then cut short"""
    keep = [j for j in range(len(found)) if S.truth(pts[j] >= pt_cut)]
    keep = sorted(keep, key=lambda j: sum(1 for i in keep if i != j and S.truth(pts[i] > pts[j])))
    if cut_w is not None:
        keep = [j for j in keep if S.truth(S.all([ws[j] < cut_w, ws[j] * cut_w > 1]))]
    keep = keep[:top_k]
    return [[S.any([i == w for w in found[j][4]]) for i in range(n)] for j in keep]


def run(S, p, *a, **k):
    return quiet(lambda: S.gcl.select.fastjet_clusters(p, *a, **k))


def compare(S, got, want, what):
    S.check(type(got) is list and len(got) == len(want), what + ": %d masks, expected %d" % (len(got), len(want)))
    for g, w in zip(got, want):
        S.check(type(g) is S.gcl.MaskArray and len(g) == len(w), what + ": a mask over the particles")
        S.same(S.lst(g), w, what + ": members")


def found(S, n, m, unknown, sizes, cut, eta, top):
    """masks of whatever jets FastJet finds"""
    vs, p = particles(S, n)
    js, pts, ws = jets(S, m, n, unknown, sizes)
    kw = {}
    pt_cut, cut_w = 0.0, None
    if cut:
        pt_cut = kw["pt_cut"] = S.float("pt_cut", 0, 32)
        for q in pts:
            S.gap(q, pt_cut)
    if eta:
        y = kw["eta_cut"] = S.logvar("eta_cut", 1.05, 20)
        cut_w = S.exp(y)
        for w in ws:
            S.gap(w, cut_w)
            S.gap(w * cut_w, 1)
    if top:
        kw["top_k"] = S.pick(S.int("top_k", 1, m + 2))
    S.jets_found(js)
    got = run(S, p, 0.5, -1, **kw)
    compare(S, got, expected(S, n, js, pts, ws, pt_cut, cut_w, kw.get("top_k")), "jets")
    S.same(S.lst(p), vs, "input left as it was")


def asked(S, n, how):
    """what FastJet is asked"""
    vs, p = particles(S, n)
    log = S.jets_found([])
    R = S.float("radius", 0, 8)
    x = S.float("p_val", -4, 4) if how == "float" else S.int("p_val", -3, 3)
    run(S, p, R, x)
    S.check(len(log.inputs) > 0, "FastJet is used")
    for f in log.inputs:
        for i, c in enumerate(("px", "py", "pz", "E")):
            S.check(c in f and len(f[c]) == n, "%s of every particle" % c)
            S.same(list(f[c]), [v[i] for v in vs], "%s of the particles in order" % c)
    for q, r in log.defs:
        S.same(q, x, "exponent")
        S.same(r, R, "radius")
    S.same(S.lst(p), vs, "input left as it was")


def refused(S, which):
    """negative cuts and radii, and a top_k which is no positive integer"""
    vs, p = particles(S, 2)
    S.jets_found([(3.0, 4.0, 1.0, 9.0, [0]), (6.0, 8.0, -1.0, 19.0, [1])])
    if which == "top_k":
        k = S.choose("k", [1.5, 2.0, "int"])
        if k == "int":
            k = S.pick(S.int("top_k", -2, 5))
        kw, bad = dict(top_k=k), not (isinstance(k, int) and k >= 1)
        r = 0.5
    else:
        v = S.float("value", -4, 4)
        bad = S.truth(v < 0)
        kw, r = ({}, v) if which == "radius" else ({which: v}, 0.5)
    err, res = S.outcome(lambda: run(S, p, r, -1, **kw))
    S.check((err == "raised" and type(res) is ValueError) == bool(bad), "%s: %s" % (which, "ValueError" if bad else "accepted"))
    S.same(S.lst(p), vs, "input left as it was")


def tasks(tier):
    t = []
    for n in (0, 1, 2, 3) + ((4,) if tier == "thorough" else ()):
        t += [("asked", dict(n=n, how=h)) for h in ("float", "int")]
    t += [("refused", dict(which=w)) for w in ("radius", "pt_cut", "eta_cut", "top_k")]
    def f(n, m, unknown, sizes, cut=0, eta=0, top=0):
        t.append(("found", dict(n=n, m=m, unknown=unknown, sizes=sizes, cut=cut, eta=eta, top=top)))
    f(0, 0, [], [])
    f(2, 0, [], [], 1, 1, 1)
    for c, e, k in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)):
        f(2, 1, [0], [2], c, e, k)
        f(3, 2, [0], [2, 1], c, e, k)
        f(3, 3, [1], [1, 2, 0], c, e, k)
    f(4, 2, [0, 1], [3, 1], 0, 1, 1)
    f(3, 3, [0, 2], [1, 1, 1], 0, 1, 1)
    if tier == "thorough":
        f(4, 3, [0, 1, 2], [2, 1, 1], 0, 0, 0)
        f(4, 3, [0, 1], [2, 1, 1], 1, 1, 1)
        f(4, 2, [0, 1], [2, 2], 1, 1, 1)
        f(3, 3, [2], [2, 2, 2], 1, 1, 1)
    return t

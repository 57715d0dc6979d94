"""C35 sampled momenta are physical and isotropic"""
import math
from checks.common import *

FUNCTIONS = "data.MomentumArray.from_spherical_uniform; calculate._root_diff_two_squares"
BOUNDS = "0 to 3 momenta; every outcome of the random generator (each variate an unknown number of its range); any maximal energy in [0.1, 640]; massless fractions 0, 1 and any in between"


def sample(S, n, emax, massless, how="kw", seed=None):
    f = S.gcl.MomentumArray.from_spherical_uniform
    if how == "default":
        return f(n, emax)
    if how == "pos":
        return f(n, emax, massless, seed)
    return f(size=n, max_energy=emax, massless=massless, seed=seed)


def fraction(S, how):
    return {"none": 0.0, "all": 1.0}[how] if how in ("none", "all") else S.float("massless", 0.0, 1.0)


def physical(S, n, frac, how="kw"):
    emax = S.float("emax", 0.1, 640)
    ml = fraction(S, frac)
    p = sample(S, n, emax, ml, how)
    S.check(type(p) is S.gcl.MomentumArray and len(p) == n, "as many momenta as asked for")
    rows_ = S.lst(p._data)
    if frac == "some":
        S.assume(S.all([ml > 1e-3, ml < 1 - 1e-3]))
    for x, y, z, e in rows_:
        S.check(S.all([e >= 0, e <= emax]), "energy within the range")
        q = S.normal(x * x + y * y + z * z)
        S.check(q <= e * e + 1e-6 * emax * emax, "not beyond the light cone")
        if frac == "all":
            S.close(q, S.square(e), "massless", 1e-5)


def isotropic(S, n, frac):
    """cosine of the polar angle and azimuth are each one evenly distributed variate"""
    emax = S.float("emax", 0.1, 640)
    ml = fraction(S, frac)
    if frac == "some":
        S.assume(S.all([ml > 1e-3, ml < 1 - 1e-3]))
    p = sample(S, n, emax, ml)
    rows_ = S.lst(p._data)
    used = []
    draws = S.variates()
    if frac == "some":
        for kind, v, lo, hi in draws:
            if kind == "random":
                S.truth(v < ml)
                S.truth(v < 1 - ml)
    for i, (x, y, z, e) in enumerate(rows_):
        pt = S.sqrt(x * x + y * y)
        mag = S.sqrt(S.square(x) + S.square(y) + S.square(z)) if frac != "all" else e
        S.assume(pt > 0.01)
        polar, turn = [], []
        for k, (kind, v, lo, hi) in enumerate(draws):
            if kind == "integers" or not isinstance(lo, (int, float)) or not isinstance(hi, (int, float)) or hi - lo < 1e-3:
                continue
            width = float(hi - lo)
            c = (v - lo) * 2 / width - 1
            polar += [(k, mag * c), (k, -(mag * c))]
            if abs(width - 2 * math.pi) < 1e-9:
                turn.append((k, v))
        if not turn:
            turn = [(k, v * (2 * math.pi)) for k, (kind, v, lo, hi) in enumerate(draws) if kind == "random"]
        turns = []
        for k, a in turn:
            for s in (1, -1):
                for cc, ss in ((S.cos(a), s * S.sin(a)), (-S.cos(a), -s * S.sin(a)), (s * S.sin(a), S.cos(a)), (-s * S.sin(a), -S.cos(a))):
                    turns.append((k, pt * cc, pt * ss))
        ok = {k for k, w in polar if S.identical(z, w)}
        if not ok:
            S.check(S.any([(z - w) * (z - w) <= 1e-6 for k, w in polar]), "z component is the magnitude times an evenly distributed cosine")
        okt = {k for k, a, b in turns if S.identical(x, a) and S.identical(y, b)}
        if not okt:
            S.check(S.any([S.all([(x - a) * (x - a) <= 1e-6, (y - b) * (y - b) <= 1e-6]) for k, a, b in turns]), "azimuth is evenly distributed")
        used.append((ok, okt))
    # different variates for every angle of every momentum
    if all(a and b for a, b in used):
        pools = [s for ab in used for s in ab]
        S.check(any(len(set(c)) == len(c) for c in itertools.product(*pools)), "independent angles")


def masses(S, n, frac):
    """energies and masses are evenly distributed, and the right fraction is massless"""
    emax = S.float("emax", 0.1, 640)
    ml = fraction(S, frac)
    if frac == "some":
        S.assume(S.all([ml > 1e-3, ml < 1 - 1e-3]))
    p = sample(S, n, emax, ml)
    rows_ = S.lst(p._data)
    draws = S.variates()
    plain = [(k, v) for k, (kind, v, lo, hi) in enumerate(draws) if kind != "integers" and isinstance(lo, (int, float)) and isinstance(hi, (int, float)) and (lo, hi) == (0, 1)]
    light = {"none": [(None, False)], "all": [(None, True)]}.get(frac) or [(k, c) for k, v in plain for c in (S.truth(v < ml), S.truth(v > 1 - ml))]
    for k, v in plain if frac == "some" else ():
        S.assume(S.any([v < ml - 1e-6, v > ml + 1e-6]))
        S.assume(S.any([v < 1 - ml - 1e-6, v > 1 - ml + 1e-6]))
    over = [(k, v, lo, hi) for k, (kind, v, lo, hi) in enumerate(draws) if kind != "integers" and isinstance(lo, (int, float)) and lo == 0]
    used = []
    for x, y, z, e in rows_:
        q = S.normal(x * x + y * y + z * z)
        # the energy is a variate over [0, emax]
        a = {k for k, v, lo, hi in over if S.identical(hi, emax) and (S.identical(e, v) or S.identical(e, emax - v))}
        a |= {k for k, v in plain if S.identical(e, emax * v) or S.identical(e, emax * (1 - v))}
        S.check(bool(a), "energy evenly distributed up to the largest")
        if not a:
            return
        first = min(a)
        # the mass is another over [0, e]
        own = [S.normal(v * v) for k, v, lo, hi in over if S.identical(hi, e) and k != first]
        own += [S.normal(e * e * v * v) for k, v in plain if k != first]
        own += [S.normal(e * e * (1 - v) * (1 - v)) for k, v in plain if k != first]
        e2 = S.normal(e * e)
        near = lambda m: S.all([q + m <= e2 + 1e-6 * emax * emax, q + m >= e2 - 1e-6 * emax * emax])
        massless, massive = near(0.0), S.any([near(m) for m in own]) if own else False
        S.check(S.any([massless if l else massive for l in {c for _, c in light}]), "massless with the given probability, or of an evenly distributed mass")
        used.append(a)
    if n > 1 and all(used):
        S.check(any(len(set(c)) == n for c in itertools.product(*used)), "independent energies")


def seeded(S, n, frac):
    emax = S.float("emax", 0.1, 640)
    ml = fraction(S, frac)
    a = sample(S, n, emax, ml, "kw", 7)
    b = sample(S, n, emax, ml, "pos", 7)
    S.same(a._data, S.lst(b._data), "same seed, same momenta")


def refused(S):
    x = S.float("massless", -4, 4)
    S.assume(S.any([x < -1e-6, x > 1 + 1e-6]))
    S.raises(ValueError, lambda: sample(S, 2, 10.0, x), "massless fraction outside [0, 1]")
    S.raises(ValueError, lambda: sample(S, 2, 10.0, math.nan), "massless fraction not a number")


def tasks(tier):
    q = tier == "quick"
    out = [("refused", {})]
    for frac in ("none", "all", "some"):
        for n in (0, 1, 2) if q else (0, 1, 2, 3):
            out.append(("physical", dict(n=n, frac=frac, how="kw" if n else "pos"), 1 + 3 * n))
        out.append(("isotropic", dict(n=1, frac=frac), 5))
        for n in (1, 2):
            out.append(("seeded", dict(n=n, frac=frac), 2))
        out.append(("masses", dict(n=1, frac=frac), 6))
    out.append(("masses", dict(n=2, frac="none"), 12))
    out.append(("physical", dict(n=1, frac="none", how="default"), 2))
    out.append(("isotropic", dict(n=2, frac="all"), 10))
    out.append(("isotropic", dict(n=2, frac="none"), 10))
    if not q:
        out += [("isotropic", dict(n=2, frac="some"), 40), ("isotropic", dict(n=3, frac="all"), 40)]
    return out

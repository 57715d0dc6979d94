"""C12 PDG attributes"""
import math
from mcpid.lookup import PdgRecords
from checks.common import *

FUNCTIONS = "data.PdgArray attributes (name, latex, quarks, charge, mass, width, mass_bounds, width_bounds, isospin, g_parity, space_parity, charge_parity), __get_prop, __get_prop_range, from_name"
BOUNDS = "arrays of 1 to 3 particles, each code any of 20 (quarks, leptons, bosons, hadrons and their antiparticles; for 3 particles 6), duplicates included; the table itself is the installed mcpid data"
TABLE = PdgRecords()
PAL = [1, 2, 6, 11, 12, 21, 22, 24, 25, 111, 211, 2212, -1, -2, -6, -11, -12, -24, -211, -2212]
SMALL = [6, -6, 21, 211, 11, 2212]
FIELDS = dict(name="name", latex="latex", quarks="quarks", charge="charge", mass="mass", width="width", isospin="i", g_parity="g", space_parity="p", charge_parity="c")


def entry(code, field):
    r = TABLE.properties([code], [field])[field][0]
    return r


def same_number(S, got, want, msg, exact):
    want = float(want)
    if math.isnan(want):
        S.check(S.isnan(got), msg)
    elif exact:
        S.same(got, want, msg)
    else:
        S.close(got, want, msg, tol=1e-9)


def codes_of(S, n, pal):
    v = []
    for i in range(n):
        c = S.int("p%d" % i, -2**31, 2**31 - 1, "<i4")
        S.assume(S.any([S.eq(c, p) for p in pal]))
        v.append(c)
    return v


def attribute(S, n, at, pal):
    codes = codes_of(S, n, pal)
    pdg = S.gcl.PdgArray(S.arr(codes, "<i4"))
    before = snapshot(S, pdg)
    got = getattr(pdg, at)
    unchanged(S, before, pdg)
    S.check(S.lst(got.shape) == [n], "one entry per particle")
    got2 = getattr(pdg, at)
    vals = [S.pick(c) for c in codes]
    for i, c in enumerate(vals):
        w = entry(c, FIELDS[at])
        for g in (got[i], got2[i]):
            if at in ("name", "latex", "quarks"):
                S.check(str(g) == str(w), "%s of %d is %r, reported %r" % (at, c, str(w), str(g)))
            else:
                same_number(S, g, w * 1e-3 if at in ("mass", "width") else w, "%s of %d" % (at, c), at not in ("mass", "width"))


def bounds(S, n, at, pal):
    codes = codes_of(S, n, pal)
    pdg = S.gcl.PdgArray(S.arr(codes, "<i4"))
    f = at.split("_")[0]
    got = getattr(pdg, at)
    got2 = getattr(pdg, at)
    vals = [S.pick(c) for c in codes]
    for side in ("lower", "upper"):
        for g in (got, got2):
            S.check(len(g[f + side]) == n, "one entry per particle")
            for i, c in enumerate(vals):
                same_number(S, g[f + side][i], entry(c, f + side) * 1e-3, "%s %s of %d" % (at, side, c), False)
    S.same(pdg.data, codes, "codes kept")


def history(S, n, first, second, pal):
    """reading one attribute does not change another"""
    codes = codes_of(S, n, pal)
    pdg = S.gcl.PdgArray(S.arr(codes, "<i4"))
    getattr(pdg, first)
    other = S.gcl.PdgArray(S.arr([21, 6], "<i4"))
    getattr(other, second)
    got = getattr(pdg, second)
    f = FIELDS[second]
    for i, c in enumerate([S.pick(x) for x in codes]):
        w = entry(c, f)
        same_number(S, got[i], w * 1e-3 if second in ("mass", "width") else w, "%s of %d after %s" % (second, c, first), False)
    S.same(pdg.data, codes, "codes kept")


def names(S, n, pal, how):
    """from names to codes and back"""
    codes = [S.pick(c) for c in codes_of(S, n, pal)]
    words = [str(entry(c, "name")) for c in codes]
    if how == "single":
        pdg = S.gcl.PdgArray.from_name(words[0])
    else:
        pdg = S.gcl.PdgArray.from_name({"list": list, "tuple": tuple, "iter": iter}[how](words))
    S.check(type(pdg) is S.gcl.PdgArray and len(pdg) == n, "one code per name")
    S.same(pdg.data, codes, "codes of the particles named, in order")
    S.check([str(x) for x in S.lst(pdg.name)] == words, "the names come back")
    S.raises(ValueError, lambda: S.gcl.PdgArray.from_name(words + ["nobody"]), "an unknown name is refused")
    S.raises(ValueError, lambda: S.gcl.PdgArray.from_name("nobody"), "an unknown name is refused")
    S.raises(ValueError, lambda: S.gcl.PdgArray.from_name(words + [codes[0]]), "only names are taken")
    S.raises(ValueError, lambda: S.gcl.PdgArray.from_name(codes[0]), "only names are taken")


def unknown(S):
    """a code the table does not hold is not given another particle's record"""
    c = S.int("p", 90000000, 90000009, "<i4")
    pdg = S.gcl.PdgArray(S.arr([21, c], "<i4"))
    S.raises(KeyError, lambda: pdg.mass, "unknown code")


def tasks(tier):
    q = tier == "quick"
    out = []
    for at in FIELDS:
        out.append(("attribute", dict(n=1, at=at, pal=PAL, _palette=PAL)))
        out.append(("attribute", dict(n=2, at=at, pal=SMALL if q else PAL, _palette=SMALL if q else PAL)))
        if not q:
            out.append(("attribute", dict(n=3, at=at, pal=SMALL, _palette=SMALL)))
    for at in ("mass_bounds", "width_bounds"):
        out.append(("bounds", dict(n=1, at=at, pal=PAL, _palette=PAL)))
        out.append(("bounds", dict(n=2, at=at, pal=SMALL, _palette=SMALL)))
    # names which no two particles share
    own = [p for p in PAL if p != 25]
    out.append(("names", dict(n=1, pal=own, how="single", _palette=own)))
    out.append(("names", dict(n=2, pal=[x for x in SMALL] if q else own, how="list", _palette=own)))
    out.append(("names", dict(n=2, pal=[-1, 11, 211], how="tuple", _palette=own)))
    out.append(("names", dict(n=3 if q else 4, pal=[24, 1, -11], how="iter", _palette=own)))
    for a, b in (("mass_bounds", "mass"), ("width_bounds", "width"), ("mass", "charge"), ("mass", "mass"), ("width", "mass")):
        out.append(("history", dict(n=1, first=a, second=b, pal=PAL, _palette=PAL)))
    return out

"""C37 equality of records"""
from checks.common import *

FUNCTIONS = "ParticleSet/Graphicle ==, != (data._composite_eq, _data_equal, _dsets)"
BOUNDS = "0 to 3 particles (4 thorough), every pair of 18 attribute sets; all contents symbolic"


def equal(S, ka, kb, n, m, g, wa=False, wb=False):
    a, ra = graph(S, n, ka, wa, "a_") if g else particle_set(S, n, ka, "a_")
    b, rb = graph(S, m, kb, wb, "b_") if g else particle_set(S, m, kb, "b_")
    names = KINDS + (["adj", "weights"] if g else [])
    want = S.all([S.eqv(ra.get(k, []), rb.get(k, [])) for k in names])
    e, ne = a == b, a != b
    S.check(S.iff(want, e), "== exactly when every attribute agrees")
    S.check(S.iff(S.Not(want), ne), "!= is the negation")
    S.check(S.iff(b == a, e), "symmetric")


def copies(S, kinds, n, g, weighted=False):
    a, ra = graph(S, n, kinds, weighted) if g else particle_set(S, n, kinds)
    c = a.copy()
    S.check(a == c, "equal to its copy")
    S.check(S.Not(a != c), "not unequal to its copy")
    S.check(a == a, "equal to itself")


def one_change(S, kinds, n, g, which, weighted=False):
    """changing one component makes it unequal"""
    a, ra = graph(S, n, kinds, weighted) if g else particle_set(S, n, kinds)
    c = a.copy()
    d = attr(c, which).reshape(-1)
    i = S.pick(S.int("i", 0, len(d) - 1))
    if which == "final":
        d[i] = S.Not(d[i])
    else:
        d[i] = d[i] + 1 if d.dtype.kind == "f" else -1 - d[i]
    S.check(a != c, "one component of %s differs" % which)
    S.check(S.Not(a == c), "one component of %s differs" % which)


def tasks(tier):
    q = tier == "quick"
    out = []
    sub = SUBSETS if not q else SUBSETS
    for i, a in enumerate(sub):
        for j, b in enumerate(sub):
            if q and i != j and (i + j) % 4:
                continue
            out.append(("equal", dict(ka=a, kb=b, n=2, m=2, g=False)))
        out.append(("equal", dict(ka=a, kb=a, n=1, m=2, g=False)))
        out.append(("equal", dict(ka=a, kb=a, n=0, m=2, g=False)))
        out.append(("copies", dict(kinds=a, n=2, g=False)))
        for w in a:
            out.append(("one_change", dict(kinds=a, n=2, g=False, which=w)))
    for i, a in enumerate(GSUBSETS):
        for j, b in enumerate(GSUBSETS):
            if q and i != j and (i + j) % 3:
                continue
            out.append(("equal", dict(ka=a, kb=b, n=2, m=2, g=True)))
        if "adj" in a:
            out.append(("equal", dict(ka=a, kb=a, n=2, m=2, g=True, wa=True, wb=True)))
            out.append(("equal", dict(ka=a, kb=a, n=2, m=2, g=True, wa=True, wb=False)))
            out.append(("one_change", dict(kinds=a, n=2, g=True, which="weights", weighted=True)))
        for w in a:
            out.append(("one_change", dict(kinds=a, n=2, g=True, which=w)))
        out.append(("copies", dict(kinds=a, n=2, g=True, weighted="adj" in a)))
    if not q:
        for a in SUBSETS:
            out.append(("equal", dict(ka=a, kb=a, n=3, m=3, g=False)))
            out.append(("equal", dict(ka=a, kb=a, n=4, m=4, g=False)))
        for a in GSUBSETS:
            out.append(("equal", dict(ka=a, kb=a, n=4, m=4, g=True)))
    return out

"""C04 copies"""
from checks.common import *

FUNCTIONS = "copy() of every data array, MaskArray, MaskGroup, AdjacencyList, ParticleSet, Graphicle; _composite_copy"
BOUNDS = "0 to 4 rows, groups nested to depth 3; all contents symbolic; every write goes to every element of either object"


def scribble(S, a):
    """write something different into every element"""
    if a.dtype == S.np.dtype("<?"):
        a[...] = S.np.logical_not(a)
    else:
        a[...] = a + 1 if a.dtype.kind == "f" else -1 - a


def arrays(S, kind, n, which):
    o, r = make(S, kind, n)
    c = o.copy()
    S.check(type(c) is type(o) and c is not o, "a new object of the same type")
    S.same(c._data, r, "same contents")
    S.same(S.lst(c._data.shape), S.lst(o._data.shape), "same shape")
    a, b = (o, c) if which == "original" else (c, o)
    scribble(S, a._data)
    S.same(b._data, r, "the other is not written to")
    if n:
        S.check(S.Not(S.eqv(a._data, r)), "the write happened")


def components(S, n, which):
    """writing through the component views of a momentum copy"""
    o, r = make(S, "pmu", n)
    c = o.copy()
    a, b = (o, c) if which == "original" else (c, o)
    a.x[...] = 0.0
    a.energy[...] = -1.0
    a.data["y"] += 2.0
    S.same(b._data, r, "the other is not written to")
    S.same(a.x, [0.0] * n, "x written")


def derived_first(S, n):
    """values derived from the original do not leak into the copy"""
    o, r = make(S, "pmu", n)
    o.mass_t, o._zt_pol
    c = o.copy()
    c._data[...] = S.arr([[1.0, 2.0, 2.0, 5.0]] * n, "<f8")
    S.close(c.mass_t, [5 * 0.0 + 21 ** 0.5] * n, "derived values of the copy")
    S.same(o._data, r, "original kept")


def adjacency(S, n, which, weighted):
    o, r = make(S, "adj", n)
    w = weights(S, n) if weighted else []
    o = S.gcl.AdjacencyList(o._data, S.arr(w, "<f8"))
    c = o.copy()
    S.check(type(c) is S.gcl.AdjacencyList, "same type")
    S.same(c._data, r, "same edges")
    S.same(c.weights, w, "same weights")
    a, b = (o, c) if which == "original" else (c, o)
    scribble(S, a._data)
    if weighted:
        scribble(S, a.weights)
    S.same(b._data, r, "edges of the other not written to")
    S.same(b.weights, w, "weights of the other not written to")


def leaves(g, S):
    for k, v in g.items():
        if isinstance(v, S.gcl.MaskGroup):
            yield from leaves(v, S)
        else:
            yield v


def groups(S, shape, agg, n, which):
    from checks.c06 import SHAPES
    g, t = group(S, "g", n, SHAPES[shape], agg)
    c = g.copy()
    S.check(type(c) is S.gcl.MaskGroup, "same type")
    same_tree(S, (agg, t), tree_of(S, c), "same contents")
    a, b = (g, c) if which == "original" else (c, g)
    for m in leaves(a, S):
        scribble(S, m._data)
    same_tree(S, (agg, t), tree_of(S, b), "writing to the members of one leaves the other")
    # structural changes at every level
    def cut(x):
        for k in list(x.keys()):
            if isinstance(x[k], S.gcl.MaskGroup):
                cut(x[k])
        x["new"] = S.arr([True] * n, "<?")
        x.agg_op = "none"
        del x[list(x.keys())[0]]
    cut(a)
    same_tree(S, (agg, t), tree_of(S, b), "adding, deleting and re-ruling one leaves the other")


def records(S, kinds, n, g, which, weighted=False):
    rec, rs = graph(S, n, kinds, weighted) if g else particle_set(S, n, kinds)
    c = rec.copy()
    S.check(type(c) is type(rec) and c is not rec, "a new object of the same type")
    holds(S, c, rs, "copy")
    a, b = (rec, c) if which == "original" else (c, rec)
    for k in rs:
        scribble(S, attr(a, k))
    holds(S, b, rs, "the other")
    a2 = a.particles if g else a
    a2.pdg = S.gcl.PdgArray([7] * 2)
    holds(S, b, rs, "the other after an attribute was replaced")


def tasks(tier):
    q = tier == "quick"
    out = []
    for which in ("original", "copy"):
        for k in KINDS:
            for n in ((0, 1, 3) if q else (0, 1, 2, 4, 6)):
                out.append(("arrays", dict(kind=k, n=n, which=which)))
        out.append(("components", dict(n=2 if q else 4, which=which)))
        for n in ((0, 1, 3) if q else (0, 1, 2, 4, 6)):
            for w in (True, False):
                out.append(("adjacency", dict(n=n, which=which, weighted=w)))
        for sh in ("one", "two", "three", "nest_and", "nest_or", "deep", "deep2"):
            for agg in ("and", "or", "none"):
                out.append(("groups", dict(shape=sh, agg=agg, n=2 if q else 4, which=which)))
        for ks in SUBSETS:
            out.append(("records", dict(kinds=ks, n=2 if q else 4, g=False, which=which)))
        for ks in GSUBSETS:
            for w in ((False, True) if "adj" in ks else (False,)):
                out.append(("records", dict(kinds=ks, n=2 if q else 4, g=True, which=which, weighted=w)))
    out.append(("derived_first", dict(n=2)))
    return out

"""C23 any_overlap finds every overlap"""
from checks.common import *

FUNCTIONS = "select.any_overlap; data.MaskGroup.data, values"
BOUNDS = "groups of 0 to 4 members (5 in the thorough tier) over 0 to 4 positions, members being masks, numpy-backed masks or nested groups of either rule; outer rule and, or, none"


def overlap(S, rows_, n):
    if not rows_:
        return False
    return S.any([S.all([a[p], b[p]]) for a, b in itertools.combinations(rows_, 2) for p in range(n)])


def plain(S, k, n, agg):
    g, t = group(S, "m", n, {"m%d" % i: None for i in range(k)}, agg)
    before = snapshot(S, g)
    got = S.gcl.select.any_overlap(g)
    S.check(S.iff(got, overlap(S, list(t.values()), n)), "overlap of some two masks")
    unchanged(S, before, g, what="group")
    S.check(S.iff(S.gcl.select.any_overlap(g), overlap(S, list(t.values()), n)), "same answer again")


SHAPES = {
    "one": {"a": ("or", {"x": None, "y": None})},
    "two": {"a": ("or", {"x": None, "y": None}), "b": None},
    "both": {"a": ("and", {"x": None, "y": None}), "b": ("or", {"x": None, "y": None})},
    "three": {"a": None, "b": ("or", {"x": None, "y": ("and", {"p": None, "q": None})}), "c": None},
}


def nested(S, shape, n, agg):
    g, t = group(S, "m", n, SHAPES[shape], agg)
    before = snapshot(S, g)
    rows_ = [aggregate(S, v[0], v[1]) if isinstance(v, tuple) else v for v in t.values()]
    S.check(S.iff(S.gcl.select.any_overlap(g), overlap(S, rows_, n)), "overlap of some two members, groups by their aggregate")
    unchanged(S, before, g, what="group")


def shared(S, n):
    """the same mask object twice overlaps itself exactly if it marks anything"""
    m, b = S.gcl.MaskArray, S.bools("m", n)
    a = m(S.arr(b, "<?"))
    S.check(S.iff(S.gcl.select.any_overlap(S.gcl.MaskGroup({"a": a, "b": a})), S.any(b)), "mask with itself")


def views(S, n):
    """masks which are slices of one larger mask"""
    b = S.bools("m", 2 * n)
    big = S.gcl.MaskArray(S.arr(b, "<?"))
    g = S.gcl.MaskGroup({"even": big[::2], "odd": big[1::2]}, "or")
    S.check(S.iff(S.gcl.select.any_overlap(g), S.any([S.all([b[2 * i], b[2 * i + 1]]) for i in range(n)])), "overlap of slices")


def tasks(tier):
    q = tier == "quick"
    out = []
    for k in range(5) if q else range(6):
        for n in (0, 1, 2, 3) if q else range(6):
            if k * n <= (12 if q else 20):
                out.append(("plain", dict(k=k, n=n, agg="and"), 1 + k * n))
    for agg in ("or", "none", None):
        out += [("plain", dict(k=2, n=2, agg=agg)), ("plain", dict(k=3, n=2, agg=agg))]
    for s in SHAPES:
        for n in (1, 2) if q else (1, 2, 3):
            for agg in ("and", "or", "none"):
                out.append(("nested", dict(shape=s, n=n, agg=agg), 3 * n))
    for n in (1, 3):
        out += [("shared", dict(n=n)), ("views", dict(n=n))]
    return out

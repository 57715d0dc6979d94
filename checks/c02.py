"""C02 subscripting"""
from checks.common import *

FUNCTIONS = "__getitem__ of PdgArray, MomentumArray, ColorArray, HelicityArray, StatusArray, MaskArray, AdjacencyList (with weights)"
BOUNDS = "1 to 4 rows (5 thorough), all components symbolic, every subscript kind with symbolic contents"


def subscript(S, kind, n, key, weighted=False):
    o, r = make(S, kind, n)
    w = None
    if weighted:
        w = weights(S, n)
        o = S.gcl.AdjacencyList(o._data, S.arr(w, "<f8"))
    k, rws = key_of(S, key, n)
    before = snapshot(S, o)
    res = o[k]
    S.check(type(res) is classes(S)[kind], "type kept")
    S.check(len(res) == len(rws), "%d records selected, length %s" % (len(rws), len(res)))
    want = [r[i] for i in rws]
    S.same(res._data, want, "rows selected")
    if COLS[kind] > 1:
        S.check(S.lst(res._data.shape) == [len(rws), COLS[kind]], "one row per record")
        S.check(len(res.data) == len(rws), "structured view has one record per row")
    if weighted:
        S.same(res.weights, [w[i] for i in rws], "weights selected")
    unchanged(S, before, o)


def same_as_numpy(S, kind, n):
    """a mask object selects what the boolean array selects"""
    o, r = make(S, kind, n)
    b, c = S.bools("b", n), S.bools("c", n)
    arr = S.arr(b, "<?")
    m = S.gcl.MaskArray(arr)
    g = S.gcl.MaskGroup({"p": S.gcl.MaskArray(S.arr(b, "<?")), "q": S.gcl.MaskArray(S.arr(c, "<?"))}, "and")
    vals = [S.truth(x) for x in b]
    vals2 = [S.truth(S.all([x, y])) for x, y in zip(b, c)]
    S.same(o[m]._data, [x for x, v in zip(r, vals) if v], "MaskArray")
    S.same(o[arr]._data, [x for x, v in zip(r, vals) if v], "boolean array")
    S.same(o[g]._data, [x for x, v in zip(r, vals2) if v], "MaskGroup")
    S.same(o[~m]._data, [x for x, v in zip(r, vals) if not v], "negated mask")


def chained(S, kind, n):
    o, r = make(S, kind, n)
    b = S.bools("b", n)
    vals = [S.truth(x) for x in b]
    m = S.gcl.MaskArray(S.arr(b, "<?"))
    sub = [x for x, v in zip(r, vals) if v]
    S.same(o[m][::-1]._data, sub[::-1], "mask, then reversal")
    S.same(o[1:][m[1:]]._data, [x for x, v in zip(r[1:], vals[1:]) if v], "slice, then mask")


def wrong(S, kind, n):
    o, r = make(S, kind, n)
    S.raises(IndexError, lambda: o[n], "index out of range")
    S.raises(IndexError, lambda: o[-n - 1], "index out of range")
    m = S.mask("m", n + 1)
    S.raises(IndexError, lambda: o[m], "mask of the wrong length")


ALL = KINDS + ["adj"]


def tasks(tier):
    q = tier == "quick"
    out = []
    for k in ALL:
        for key in KEYS:
            if q and key == ("idx_arr", 3):
                continue
            n = 3 if q else 4
            out.append(("subscript", dict(kind=k, n=n, key=key)))
            if not q or key in ("int", "mask", ("slice", 1, None, None)):
                out.append(("subscript", dict(kind=k, n=1, key=key)))
                out.append(("subscript", dict(kind=k, n=2, key=key)))
            if k == "adj":
                out.append(("subscript", dict(kind=k, n=n, key=key, weighted=True)))
        out.append(("same_as_numpy", dict(kind=k, n=3 if q else 5)))
        out.append(("chained", dict(kind=k, n=3 if q else 5)))
        out.append(("wrong", dict(kind=k, n=2)))
    return out

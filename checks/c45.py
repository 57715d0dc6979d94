"""C45 numpy reads every data object as the array of its contents"""
import warnings
from checks.common import *

FUNCTIONS = "__array_interface__, __array__, __len__, __iter__ and data of PdgArray, MomentumArray, ColorArray, HelicityArray, StatusArray, MaskArray, AdjacencyList, MaskGroup"
BOUNDS = "0 to 3 records [5] with any components, whole, sliced, reversed or selected; groups of two or three masks, flat or nested, aggregated by and/or; plain arrays of 0 to 3 [5] rows subscripted by masks and groups"
ALL = ["pdg", "pmu", "color", "helicity", "status", "final", "adj"]
WAYS = {"whole": lambda x: x, "rest": lambda x: x[1:], "reversed": lambda x: x[::-1], "every other": lambda x: x[::2], "none": lambda x: x[:0], "copy": lambda x: x.copy()}


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def convert(S, kind, n, way):
    x, r = make(S, kind, n, "x")
    f = WAYS[way]
    y, want = f(x), f(r)
    np = S.np
    dt = S.np.dtype(DT[kind])
    m, c = len(want), COLS[kind]
    a = quiet(lambda: np.asarray(y))
    S.check(a.dtype == dt, "numbers of the array's type")
    S.check(tuple(a.shape) == ((m,) if c == 1 else (m, c)), "a row for each record, a column for each component")
    S.same(a, want if m else a, "np.asarray gives the contents")
    b = quiet(lambda: np.array(y))
    S.same(b, want if m else b, "np.array gives the contents")
    if kind in ("pdg", "helicity", "status"):
        d = quiet(lambda: np.array(y, dtype="<f8"))
        S.check(d.dtype == S.np.dtype("<f8"), "conversion to another type")
        S.same(d, want if m else d, "converted contents")
    e = y.__array__()
    S.check(len(e) == m, "as many records")
    if e.dtype.names:
        for k, name in enumerate(e.dtype.names):
            S.same(e[name].reshape(-1), [row[k] for row in want], "field %s of the records" % name)
    else:
        S.same(e, want if m else e, "__array__ gives the contents")
    S.same(x._data, r if n else x._data, "array left as it was")


def combine(S, kind, n):
    """functions which take several arrays"""
    x, r = make(S, kind, n, "x")
    y, q = make(S, kind, n, "y")
    np = S.np
    S.same(quiet(lambda: np.concatenate([x, y])), r + q, "concatenated")
    S.same(quiet(lambda: np.stack([x, y])), [r, q], "stacked")
    S.same(quiet(lambda: np.vstack([x, y])), [r, q] if COLS[kind] == 1 else r + q, "put below each other")
    S.check(S.truth(quiet(lambda: np.array_equal(x, S.arr(r, DT[kind])))), "equal to its contents")
    i = S.pick(S.int("i", 0, n - 1))
    S.same(quiet(lambda: np.asarray(x)[i]), r[i], "one record")
    if COLS[kind] == 1 and kind != "final":
        v = r[i]
        S.same(quiet(lambda: np.isin(x, [v])), [S.eq(w, v) for w in r], "membership")
        S.same(quiet(lambda: np.where(np.asarray(x) == v, x, y)), [S.ite(S.eq(a, v), a, b) for a, b in zip(r, q)], "chosen element by element")
    S.same(x._data, r, "array left as it was")


def masked(S, n, rule, shape):
    """masks and groups as numpy conditions"""
    np = S.np
    if rule is None:
        b = S.bools("m", n)
        m = S.gcl.MaskArray(S.arr(b, "<?"))
        agg = b
    else:
        m, t = group(S, "g", n, shape, rule)
        agg = aggregate(S, rule, t)
    before = snapshot(S, m)
    a = quiet(lambda: np.asarray(m))
    S.check(a.dtype == S.np.dtype("<?") and tuple(a.shape) == (n,), "a boolean for each position")
    S.same(a, agg, "np.asarray gives the mask")
    S.same(quiet(lambda: np.where(m, 3, 7)), [S.ite(v, 3, 7) for v in agg], "a condition element by element")
    vals = [S.truth(v) for v in agg]
    rows = [i for i in range(n) if vals[i]]
    S.same(quiet(lambda: np.flatnonzero(m)), rows, "true positions")
    S.check(quiet(lambda: np.count_nonzero(m)) == len(rows), "number of true positions")
    w = S.floats("w", n)
    S.same(S.arr(w, "<f8")[m], [w[i] for i in rows], "elements of a plain array")
    u = [S.floats("u%d" % i, 2) for i in range(n)]
    got = S.arr(u, "<f8").reshape(-1, 2)[m]
    S.check(tuple(got.shape) == (len(rows), 2), "rows of a plain array")
    S.same(got, [u[i] for i in rows] if rows else got, "rows of a plain array")
    z = S.arr(w, "<f8")
    z[m] = 0.0
    S.same(z, [0.0 if vals[i] else w[i] for i in range(n)], "assigned where true")
    S.same(list(m) if rule is None else list(m.data), vals, "iteration")
    unchanged(S, before, m, what="mask")


def no_rule(S, n):
    g, t = group(S, "g", n, {"a": None, "b": None}, "none")
    S.raises(ValueError, lambda: g.data, "a group without a rule is no array")


FLAT, NESTED = {"a": None, "b": None}, {"a": None, "b": ("and", {"c": None, "d": None}), "e": ("or", {"c": None, "f": None})}


def tasks(tier):
    q = tier == "quick"
    out = [("no_rule", dict(n=2))]
    for kind in ALL:
        for n in (0, 1, 3) if q else (0, 1, 2, 3, 5):
            for way in WAYS:
                if n or way in ("whole", "copy"):
                    out.append(("convert", dict(kind=kind, n=n, way=way)))
        for n in (1, 3) if q else (1, 2, 3, 5):
            out.append(("combine", dict(kind=kind, n=n), n))
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 5):
        out.append(("masked", dict(n=n, rule=None, shape=None), 1 + n))
        for rule in ("and", "or"):
            for shape in (FLAT, NESTED):
                if n:
                    out.append(("masked", dict(n=n if shape is FLAT else min(n, 3), rule=rule, shape=shape), 1 + n))
    return out

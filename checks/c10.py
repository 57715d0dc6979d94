"""C10 record comparison"""
from checks.common import *

FUNCTIONS = "data._array_eq_prep, _array_eq, _array_ne, __eq__/__ne__ of PdgArray, MomentumArray, ColorArray, HelicityArray, StatusArray, AdjacencyList"
BOUNDS = "1 to 4 rows (6 thorough), all components symbolic"
ALL = [k for k in KINDS if k != "final"] + ["adj"]


def row_eq(S, a, b):
    return S.all([S.eq(x, y) for x, y in zip(a, b)]) if isinstance(a, list) else S.eq(a, b)


def operand(S, kind, n, form, name="y"):
    o, r = make(S, kind, n, name)
    if form == "object":
        return o, r
    if form == "array":
        return o.data, r          # numpy array of the same record type
    raise ValueError(form)


def pair(S, kind, n, form):
    x, rx = make(S, kind, n, "x")
    y, ry = operand(S, kind, n, form)
    before = snapshot(S, x, y) if form == "object" else snapshot(S, x)
    e, ne = x == y, x != y
    S.check(type(e) is S.gcl.MaskArray and type(ne) is S.gcl.MaskArray, "comparisons give masks")
    w = [row_eq(S, a, b) for a, b in zip(rx, ry)]
    S.same(e.data, w, "== record by record")
    S.same(ne.data, [S.Not(v) for v in w], "!= record by record")
    S.check(len(e) == n and len(ne) == n, "one entry per record")
    unchanged(S, before, *((x, y) if form == "object" else (x,)))


def itself(S, kind, n):
    x, rx = make(S, kind, n, "x")
    S.same((x == x).data, [True] * n, "equal to itself")
    S.same((x != x).data, [False] * n, "not unequal to itself")
    S.same((x == x.copy()).data, [True] * n, "equal to its copy")


def record(S, kind, n, form):
    x, rx = make(S, kind, n, "x")
    r = rows(S, kind, 1, "rec", wide=True)[0]
    rec = r
    if COLS[kind] > 1:
        rec = tuple(r) if form == "tuple" else list(r)
    e, ne = x == rec, x != rec
    w = [row_eq(S, a, r) for a in rx]
    S.check(type(e) is S.gcl.MaskArray and type(ne) is S.gcl.MaskArray, "comparisons give masks")
    S.same(e.data, w, "every row compared with the record")
    S.same(ne.data, [S.Not(v) for v in w], "every row compared with the record (!=)")
    if COLS[kind] > 1:
        S.same((x == x[:1].serialize()[0]).data, [row_eq(S, a, rx[0]) for a in rx], "record taken from the array")


def mixed_record(S, kind, n, ints):
    """a tuple of whole numbers and others"""
    x, rx = make(S, kind, n, "x")
    r = rows(S, kind, 1, "rec", wide=True)[0]
    for k in ints:
        r[k] = S.int("i%d" % k, -5, 5)
    w = [row_eq(S, a, r) for a in rx]
    S.same((x == tuple(r)).data, w, "every row compared with the record")
    S.same((x != tuple(r)).data, [S.Not(v) for v in w], "every row compared with the record (!=)")


def other_shape(S, kind, n, what):
    """no comparison with what is no record"""
    x, rx = make(S, kind, n, "x")
    r = rows(S, kind, 1, "rec", wide=True)[0]
    y = {"short": tuple(r[:-1]), "long": tuple(r + r[:1]), "number": r[0], "none": None, "empty": ()}[what]
    S.raises(ValueError, lambda: x == y, "compared with %s" % what)
    S.raises(ValueError, lambda: x != y, "compared with %s (!=)" % what)


def one_record(S, kind, n):
    """an object of one record compares with every row"""
    x, rx = make(S, kind, n, "x")
    y, ry = make(S, kind, 1, "y")
    w = [row_eq(S, a, ry[0]) for a in rx]
    S.same((x == y).data, w, "compared with the one record")
    S.same((x != y).data, [S.Not(v) for v in w], "compared with the one record (!=)")


def tasks(tier):
    q = tier == "quick"
    out = []
    for k in ALL:
        for n in ((1, 2, 3) if q else (0, 1, 2, 4, 6)):
            for f in ("object", "array"):
                out.append(("pair", dict(kind=k, n=n, form=f)))
            out.append(("itself", dict(kind=k, n=n)))
            out.append(("one_record", dict(kind=k, n=n)))
            if n:
                for f in ("tuple",):
                    out.append(("record", dict(kind=k, n=n, form=f)))
    for n in (1, 2) if q else (1, 2, 4):
        for ints in ((0,), (1, 2), (3,), (0, 1, 2, 3)):
            out.append(("mixed_record", dict(kind="pmu", n=n, ints=list(ints))))
    for k in ("pmu", "color", "adj"):
        for w in ("short", "long", "number", "none", "empty"):
            out.append(("other_shape", dict(kind=k, n=2, what=w)))
    return out

"""C01 construction of data arrays"""
from checks.common import *

FUNCTIONS = "data._array_field (converter, _row_contiguous, _reorder_pmu, _reorder_edges), constructors, data/x/y/z/energy/color/anticolor/edges views, __iter__, __len__ of MomentumArray, ColorArray, PdgArray, HelicityArray, StatusArray, MaskArray, AdjacencyList"
BOUNDS = "0 to 4 records (6 thorough), every component symbolic; all 24 orders of the momentum fields and every alias combination, both edge orders with aliases, C/Fortran/transposed/strided/reversed layouts, integer and float source types, structured arrays whose fields are of different types"

NAMES = dict(pmu=["x", "y", "z", "e"], color=["color", "anticolor"], adj=["src", "dst"])


def agree(S, obj, kind, r, what):
    """every way of reading obj gives rows r"""
    n = len(r)
    c = classes(S)[kind]
    S.check(type(obj) is c, what + ": type")
    S.check(len(obj) == n, what + ": length %s for %d records" % (len(obj), n))
    if COLS[kind] == 1:
        S.same(obj.data, r, what + ": data")
        S.check(S.lst(S.np.asarray(obj).shape) == [n], what + ": as an array")
        S.same(S.np.asarray(obj), r, what + ": as an array")
        S.same(list(obj), r, what + ": iteration")
    else:
        S.check(S.lst(obj._data.shape) == [n, COLS[kind]], what + ": shape %s" % (obj._data.shape,))
        S.same(obj._data, r, what + ": rows")
        names = NAMES[kind]
        d = obj.data
        S.check(list(d.dtype.names) == names, what + ": field names")
        S.check(S.lst(d.shape) == [n], what + ": one record per row")
        for j, nm in enumerate(names):
            S.same(d[nm], [row[j] for row in r], what + ": field " + nm)
        acc = dict(pmu=["x", "y", "z", "energy"], color=["color", "anticolor"], adj=None)[kind]
        if acc:
            for j, at in enumerate(acc):
                S.same(getattr(obj, at), [row[j] for row in r], what + ": accessor " + at)
        else:
            S.same(obj.edges["src"], [row[0] for row in r], what + ": edges src")
            S.same(obj.edges["dst"], [row[1] for row in r], what + ": edges dst")
        el = list(obj)
        S.check(len(el) == n, what + ": iteration length")
        fields = dict(pmu=["x", "y", "z", "e"], color=["color", "anticolor"], adj=["src", "dst"])[kind]
        for i, e in enumerate(el):
            for j, f in enumerate(fields):
                S.same(getattr(e, f), r[i][j], what + ": element " + f)
    S.check(bool(obj) is (n > 0), what + ": truth")


def from_rows(S, kind, n, form):
    r = rows(S, kind, n)
    cols = COLS[kind]
    src = [tuple(x) for x in r] if form == "tuples" and cols > 1 else r
    if form == "tuple_of":
        src = tuple(src)
    agree(S, classes(S)[kind](src), kind, r, "from rows")


def layout(S, kind, n, form, dtype=None):
    r = rows(S, kind, n, wide=dtype is None)
    cols = COLS[kind]
    np = S.np
    if dtype in ("<f8", "<f4") and kind != "pmu":
        base = np.array(r, dtype="<i4").astype(dtype)
    elif dtype is not None and kind == "pmu":
        r = [[S.int("m%d_%d" % (i, j), -20, 20) for j in range(4)] for i in range(n)]
        base = np.array(r, dtype="<i8").astype(dtype)
    else:
        base = np.array(r, dtype=dtype or DT[kind])
    if cols > 1 and n == 0:
        base = base.reshape(0, cols)
    if form == "C":
        a = base
    elif form == "F":
        a = np.asfortranarray(base)
    elif form == "T":
        a = np.array([[r[i][j] for i in range(n)] for j in range(cols)], dtype=DT[kind]).T
    elif form == "strided":
        big = np.zeros((2 * n, cols) if cols > 1 else 2 * n, dtype=base.dtype)
        big[::2] = base
        a = big[::2]
    elif form == "reversed":
        a = np.ascontiguousarray(base[::-1])[::-1]
    elif form == "colslice":
        big = np.zeros((n, cols + 2), dtype=base.dtype)
        big[:, 1:cols + 1] = base
        a = big[:, 1:cols + 1]
    elif form == "column":
        a = base.reshape(-1, 1)
    before = S.lst(a)
    o = classes(S)[kind](a)
    agree(S, o, kind, r, "from a %s array" % form)
    S.same(a, before, "source kept")


def structured(S, kind, n, names, order, big=False):
    """order: for field position p of the source, which component it holds"""
    r = rows(S, kind, n)
    dt = [(names[c], DT[kind]) for c in order]
    a = S.np.zeros(n, dtype=dt)
    for c in order:
        a[names[c]] = S.arr([row[c] for row in r], DT[kind])
    if big:
        b = S.np.zeros(2 * n, dtype=dt)
        b[::2] = a
        a = b[::2]
    o = classes(S)[kind](a)
    agree(S, o, kind, r, "from a structured array")
    for c in order:
        S.same(a[names[c]], [row[c] for row in r], "source kept")


def mixed(S, kind, n, types, order):
    """a structured array whose fields are of different number types"""
    nm = NAMES[kind]
    r = []
    for i in range(n):
        row = []
        for c, t in enumerate(types):
            lo, hi = {"<i1": (-128, 127), "<u1": (0, 255), "<i2": (-2**15, 2**15 - 1), "<f4": (-2**20, 2**20)}.get(t, (-2**31, 2**31 - 1))
            if t == "<f8":
                row.append(S.float("m%d_%d" % (i, c)) if kind == "pmu" else S.int("m%d_%d" % (i, c), lo, hi))
            else:
                row.append(S.int("m%d_%d" % (i, c), lo, hi))
        r.append(row)
    a = S.np.zeros(n, dtype=[(nm[c], types[c]) for c in order])
    for c in order:
        a[nm[c]] = S.arr([row[c] for row in r], types[c] if types[c] not in ("<f4", "<f8") or kind == "pmu" and types[c] == "<f8" else "<i8").astype(types[c])
    agree(S, classes(S)[kind](a), kind, r, "from a structured array of mixed types")


def flat(S, kind, form):
    r = rows(S, kind, 1)
    src = r[0] if COLS[kind] > 1 else r[0]
    if form == "tuple" and COLS[kind] > 1:
        src = tuple(src)
    elif form == "array":
        src = S.arr(src, DT[kind])
    o = classes(S)[kind](src)
    agree(S, o, kind, r, "from one flat record")


def structured_record(S, kind):
    """a zero-dimensional structured value: one record of a structured array"""
    r = rows(S, kind, 2)
    nm = NAMES[kind]
    a = S.np.zeros(2, dtype=[(x, DT[kind]) for x in nm])
    for j, x in enumerate(nm):
        a[x] = S.arr([row[j] for row in r], DT[kind])
    agree(S, classes(S)[kind](a[1:2]), kind, r[1:2], "from a one-record structured array")


def empty(S, kind):
    agree(S, classes(S)[kind](), kind, [], "default")
    agree(S, classes(S)[kind]([]), kind, [], "from an empty list")


def rejected(S, kind, n, cols, form):
    v = [[S.int("v%d_%d" % (i, j), -3, 3) for j in range(cols)] for i in range(n)]
    src = v if form == "list" else S.arr(v, DT[kind] if kind != "final" else "<i4")
    S.raises(ValueError, lambda: classes(S)[kind](src), "%d columns for %s rejected" % (cols, kind))


def rejected_flat(S, kind, m, form):
    v = [S.int("v%d" % j, -3, 3) for j in range(m)]
    src = v if form == "list" else S.arr(v, DT[kind])
    S.raises(ValueError, lambda: classes(S)[kind](src), "flat record of %d for %s rejected" % (m, kind))


def reassign(S, kind, n, m, form):
    """the data attribute takes the same inputs as the constructor"""
    o, _ = make(S, kind, n, "old")
    r = rows(S, kind, m, "new")
    if form == "F" and COLS[kind] > 1:
        src = S.np.asfortranarray(S.arr(r, DT[kind]))
    elif form == "struct" and COLS[kind] > 1:
        nm = NAMES[kind][::-1]
        src = S.np.zeros(m, dtype=[(x, DT[kind]) for x in nm])
        for j, x in enumerate(NAMES[kind]):
            src[x] = S.arr([row[j] for row in r], DT[kind])
    else:
        src = r
    o.data = src
    agree(S, o, kind, r, "after assignment")


def edge_weights(S, n):
    r = rows(S, "adj", n)
    w = weights(S, n)
    a = S.gcl.AdjacencyList(S.arr(r, "<i4"), S.arr(w, "<f8"))
    agree(S, a, "adj", r, "with weights")
    S.same(a.weights, w, "weights")
    b = S.gcl.AdjacencyList(r, weights=w)
    S.same(b.weights, w, "weights from a list")




PMU_ALIASES = [["x", "y", "z", "e"], ["px", "py", "pz", "pe"], ["px", "py", "pz", "E"], ["x", "py", "z", "E"], ["px", "y", "pz", "e"]]
EDGE_ALIASES = [["src", "dst"], ["in", "out"], ["src", "out"], ["in", "dst"]]
ALL = KINDS + ["adj"]


def tasks(tier):
    q = tier == "quick"
    n = 2 if q else 5
    out = []
    for k in ALL:
        out.append(("empty", dict(kind=k)))
        for f in ("lists", "tuples", "tuple_of"):
            for m in ((1, 3) if q else (1, 2, 4, 5)):
                if COLS[k] > 1 and m == COLS[k] and False:
                    continue
                out.append(("from_rows", dict(kind=k, n=m, form=f)))
        for f in ("C", "F", "strided", "reversed") + (("T", "colslice") if COLS[k] > 1 else ("column",)):
            out.append(("layout", dict(kind=k, n=n, form=f)))
            if f in ("C", "T", "F"):
                for m in ((1, 3, 4) if q else (0, 1, 3, 4, 6)):
                    out.append(("layout", dict(kind=k, n=m, form=f)))
        for dt in (("<i8", "<f8") if k != "final" else ("<i8",)):
            if k == "final":
                continue
            for f in ("C", "F"):
                out.append(("layout", dict(kind=k, n=n, form=f, dtype=dt)))
        for f in ("list", "tuple", "array"):
            out.append(("flat", dict(kind=k, form=f)))
        for c in ((1, 2, 3, 4, 5) if COLS[k] > 1 else (2, 3, 4)):
            if c == COLS[k]:
                continue
            for m in (1, 2, 3, 4, 5):
                if c == 1 and m == COLS[k]:
                    continue
                if q and m not in (2, 3):
                    continue
                for f in ("list", "array"):
                    out.append(("rejected", dict(kind=k, n=m, cols=c, form=f)))
        if COLS[k] > 1:
            for m in (1, 2, 3, 4, 5, 8):
                if m != COLS[k]:
                    out.append(("rejected_flat", dict(kind=k, m=m, form="list")))
                    out.append(("rejected_flat", dict(kind=k, m=m, form="array")))
        if k != "adj":
            for f in ("list", "F", "struct"):
                out.append(("reassign", dict(kind=k, n=2, m=3, form=f)))
                out.append(("reassign", dict(kind=k, n=2, m=1, form=f)))
    for i, o in enumerate(itertools.permutations(range(4))):
        for j, al in enumerate(PMU_ALIASES):
            if q and j and (i + j) % 3:
                continue
            out.append(("structured", dict(kind="pmu", n=n, names=al, order=o)))
    for al in EDGE_ALIASES:
        for o in ((0, 1), (1, 0)):
            for m in (1, 2, 3):
                out.append(("structured", dict(kind="adj", n=m, names=al, order=o)))
            out.append(("structured", dict(kind="adj", n=2, names=al, order=o, big=True)))
    for o in ((0, 1), (1, 0)):
        for m in (1, 2, 3):
            out.append(("structured", dict(kind="color", n=m, names=["color", "anticolor"], order=o)))
    for o in ((0, 1, 2, 3), (3, 0, 1, 2), (2, 1, 0, 3)):
        for m in (1, 4):
            out.append(("structured", dict(kind="pmu", n=m, names=PMU_ALIASES[0], order=o)))
        out.append(("structured", dict(kind="pmu", n=2, names=PMU_ALIASES[2], order=o, big=True)))
    for t in (("<i4", "<f8", "<f8", "<f8"), ("<f4", "<f8", "<i2", "<f8"), ("<i8", "<i1", "<u1", "<f8"), ("<f8", "<i4", "<i4", "<f4")):
        for o in ((0, 1, 2, 3), (3, 1, 0, 2)):
            out.append(("mixed", dict(kind="pmu", n=2, types=t, order=o)))
    for k in ("color", "adj"):
        for t in (("<i2", "<i4"), ("<i8", "<i2"), ("<u1", "<i4"), ("<i1", "<f8"), ("<f8", "<i4")):
            for o in ((0, 1), (1, 0)):
                out.append(("mixed", dict(kind=k, n=2, types=t, order=o)))
    for k in ("pmu", "color", "adj"):
        out.append(("structured_record", dict(kind=k)))
    out.append(("edge_weights", dict(n=3)))
    return out

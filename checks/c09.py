"""C09 numpy arithmetic on data arrays equals arithmetic on their contents"""
import operator
import warnings
from checks.common import *

FUNCTIONS = "data._array_ufunc; __array_ufunc__, __array_wrap__, __array__ and the operators of PdgArray, MomentumArray, ColorArray, HelicityArray, StatusArray, AdjacencyList, MaskArray"
BOUNDS = "0 to 3 rows (5 in the thorough tier), any components (integers of the array's width, momenta in [-64, 64]); operators + - * / // %, ** 2, comparisons, negation, absolute value, minimum, maximum, divmod, bitwise and logical operators; array/array, array/numpy, numpy/array, array/scalar, scalar/array, rows broadcast; in-place and out=; sum, minimum and maximum over axis None, 0, 1, -1, -2 with and without keepdims; cumulative sums; add.at"
BIN = dict(add=operator.add, sub=operator.sub, mul=operator.mul, truediv=operator.truediv, floordiv=operator.floordiv, mod=operator.mod, pow=operator.pow,
           lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge, and_=operator.and_, or_=operator.or_, xor=operator.xor)
INPLACE = dict(add=operator.iadd, sub=operator.isub, mul=operator.imul)
UFUNC = dict(add="add", sub="subtract", mul="multiply", maximum="maximum", minimum="minimum")
ALL = ["pdg", "pmu", "color", "helicity", "status", "adj"]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def contents(x):
    return x._data if hasattr(x, "_data") else x


def cast(S, x, kind):
    return S.np.asarray(x).astype(DT[kind]) if str(x.dtype) != str(S.np.dtype(DT[kind])) else x


def values(S, kind, got, want, n, msg):
    """an array of the kind, holding what numpy gives (as the kind's numbers)"""
    S.check(type(got) is classes(S)[kind], msg + ": keeps the array type")
    S.check(len(got) == n, msg + ": rows")
    S.same(got._data, cast(S, want, kind), msg + ": component by component")


def operands(S, kind, n, form):
    x, rx = make(S, kind, n, "x")
    if form in ("array", "self"):
        y = make(S, kind, n, "y")[0] if form == "array" else x
        return x, y, contents(x), contents(y)
    if form in ("numpy", "rnumpy"):
        y = S.arr(rows(S, kind, n, "y"), DT[kind])
        y = y.reshape(-1, COLS[kind]) if COLS[kind] > 1 else y
        return (x, y, contents(x), y) if form == "numpy" else (y, x, y, contents(x))
    if form == "row":
        y = S.arr(rows(S, kind, 1, "y")[0], DT[kind])
        return x, y, contents(x), y
    if form == "column":
        y = S.arr([[scalar(S, kind, "y%d" % i)] for i in range(n)], DT[kind])
        return x, y, contents(x), y
    if form == "list":
        y = rows(S, kind, n, "y")
        return x, y, contents(x), S.arr(y, DT[kind])
    if form == "numpy scalar":
        y = S.arr([scalar(S, kind, "y")], DT[kind])[0]
        return x, y, contents(x), y
    y = scalar(S, kind, "y", wide=False) if form in ("scalar", "rscalar") else form
    return (y, x, y, contents(x)) if form == "rscalar" else (x, y, contents(x), y)


def binary(S, kind, op, n, form):
    a, b, pa, pb = operands(S, kind, n, form)
    if op in ("truediv", "floordiv", "mod"):
        for v in S.lst(pb) if S.is_array(pb) else [pb]:
            for w in v if isinstance(v, list) else [v]:
                S.assume(S.any([w > 0, w < 0]))
                S.assume(S.any([w > 1e-3, w < -1e-3]))
    before = snapshot(S, *(v for v in (a, b) if hasattr(v, "_data")))
    raw = quiet(lambda: BIN[op](pa, pb))
    got = quiet(lambda: BIN[op](a, b))
    if op in ("lt", "le", "gt", "ge"):
        S.check(type(got) is S.gcl.MaskArray, op + ": comparisons give masks")
        S.same(got._data, raw, op + ": row by row")
    else:
        values(S, kind, got, raw, n, op)
        # the result has memory of its own
        got._data[...] = 0
    unchanged(S, before, *(v for v in (a, b) if hasattr(v, "_data")))


def unary(S, kind, n):
    x, _ = make(S, kind, n, "x")
    before = snapshot(S, x)
    raw = contents(x)
    for what, f in (("abs", abs), ("neg", operator.neg), ("pos", operator.pos), ("absolute", S.np.absolute), ("negative", S.np.negative)):
        got = f(x)
        values(S, kind, got, f(raw), n, what)
        got._data[...] = 1
        unchanged(S, before, x)


def inplace(S, kind, op, n, form):
    """x += y writes the result into x, and nothing else"""
    x, y, px, py = operands(S, kind, n, form)
    want = S.np.array(BIN[op](px, py))
    alias = x
    before = snapshot(S, *(v for v in (y,) if hasattr(v, "_data") and v is not x))
    got = INPLACE[op](x, y)
    values(S, kind, got, want, n, "in-place " + op)
    S.same(alias._data, cast(S, want, kind), "in-place %s: the target has changed" % op)
    unchanged(S, before, *(v for v in (y,) if hasattr(v, "_data") and v is not x))


def into(S, kind, op, n, form):
    """out= writes into its target, and nothing else"""
    x, y = make(S, kind, n, "x")[0], make(S, kind, n, "y")[0]
    want = getattr(S.np, UFUNC[op])(contents(x), contents(y)).copy()
    f = getattr(S.np, UFUNC[op])
    if form == "array":
        out = make(S, kind, n, "z")[0]
        before = snapshot(S, x, y)
        got = f(x, y, out=out)
    elif form == "first":
        out = x
        before = snapshot(S, y)
        got = f(x, y, out=x)
    elif form == "tuple":
        out = y
        before = snapshot(S, x)
        got = f(x, y, out=(y,))
    else:
        out = S.np.zeros(contents(x).shape, DT[kind])
        before = snapshot(S, x, y)
        got = f(x, y, out=out)
    values(S, kind, got, want, n, "out= " + op)
    S.same(contents(out), want, "out= %s: the target" % op)
    unchanged(S, before, *([x, y] if form in ("array", "numpy") else [y] if form == "first" else [x]))


def reductions(S, kind, n, fn="sum"):
    x, _ = make(S, kind, n, "x")
    raw = contents(x)
    before = snapshot(S, x)
    f = getattr(S.np, fn)
    if fn == "sum":
        total = f(x)
        S.check(len(S.np.shape(total)) == 0, "sum over everything is one number")
        S.close(total, f(raw), "sum over everything", 1e-9) if kind == "pmu" else S.same(total, f(raw), "sum over everything")
    wide = COLS[kind] > 1
    for axis in (0, -2) if wide else (0, -1):
        got = f(x, axis=axis)
        if wide:
            values(S, kind, got, f(raw, axis=0).reshape(1, -1), 1, "%s over rows (axis %d)" % (fn, axis))
        else:
            S.check(len(S.np.shape(got)) == 0, "%s over rows is one number" % fn)
            S.same(got, f(raw, axis=0), "%s over rows" % fn)
        values(S, kind, f(x, axis=axis, keepdims=True), f(raw, axis=0, keepdims=True), 1, "%s over rows, dimensions kept" % fn)
    if wide:
        for axis in (1, -1):
            got = f(x, axis=axis)
            S.check(S.is_array(got) and got.shape == (n,), "%s over components (axis %d): one number per row" % (fn, axis))
            S.same(got, f(raw, axis=1), "%s over components" % fn)
        got = f(x, axis=1, keepdims=True)
        S.check(S.is_array(got) and got.shape == (n, 1), "%s over components, dimensions kept" % fn)
        S.same(got, f(raw, axis=1, keepdims=True), "%s over components, dimensions kept" % fn)
    unchanged(S, before, x)


def running(S, kind, n):
    x, _ = make(S, kind, n, "x")
    raw = contents(x)
    before = snapshot(S, x)
    values(S, kind, S.np.add.accumulate(x, axis=0), S.np.add.accumulate(raw, axis=0), n, "running sum")
    unchanged(S, before, x)
    d = divmod(x, 3)
    w = divmod(raw, 3)
    S.check(type(d) is tuple and len(d) == 2, "two results")
    for g, q in zip(d, w):
        values(S, kind, g, q, n, "divmod")
    unchanged(S, before, x)
    if n:
        i = S.pick(S.int("i", -n, n - 1))
        j = S.pick(S.int("j", 0, n - 1))
        v = scalar(S, kind, "v", wide=False)
        want = raw.copy()
        S.np.add.at(want, [i, j], v)
        r = S.np.add.at(x, [i, j], v)
        S.check(r is None, "add.at returns nothing")
        S.same(contents(x), want, "add.at")


def masks(S, n, form):
    """logical operators and counts of masks"""
    a, pa = make(S, "final", n, "x")
    b, pb = make(S, "final", n, "y")
    if form == "numpy":
        b = S.arr(pb, "<?")
    elif form == "rnumpy":
        a = S.arr(pa, "<?")
    objs = [v for v in (a, b) if hasattr(v, "_data")]
    before = snapshot(S, *objs)
    for what, f, w in (("and", S.np.logical_and, lambda p, q: S.all([p, q])), ("or", S.np.logical_or, lambda p, q: S.any([p, q])),
                       ("xor", S.np.logical_xor, lambda p, q: S.Not(S.iff(p, q))), ("equal", S.np.equal, lambda p, q: S.iff(p, q)),
                       ("bitwise and", S.np.bitwise_and, lambda p, q: S.all([p, q])), ("bitwise or", S.np.bitwise_or, lambda p, q: S.any([p, q]))):
        got = f(a, b)
        S.check(type(got) is S.gcl.MaskArray and len(got) == n, what + ": a mask")
        S.same(got._data, [w(p, q) for p, q in zip(pa, pb)], what)
        unchanged(S, before, *objs)
    m = objs[0]
    bits = pa if m is a else pb
    S.same(S.np.logical_not(m)._data, [S.Not(v) for v in bits], "not")
    S.same(S.np.invert(m)._data, [S.Not(v) for v in bits], "invert")
    S.same(S.np.sum(m), S.isum(bits), "number of marks")
    S.same(S.truth(S.np.any(m)), S.truth(S.any(bits)), "any")
    S.same(S.truth(S.np.all(m)), S.truth(S.all(bits)), "all")
    unchanged(S, before, *objs)


def tasks(tier):
    q = tier == "quick"
    out = []
    for kind in ALL:
        wide = COLS[kind] > 1
        ints = kind != "pmu"
        for form in ("array", "numpy", "rnumpy", "scalar", "rscalar"):
            for op in ("add", "sub", "mul"):
                if op == "mul" and kind in ("color", "adj", "helicity") and form in ("numpy", "rnumpy") and q:
                    continue
                out.append(("binary", dict(kind=kind, op=op, n=2, form=form)))
            if not wide:
                for op in ("lt", "le", "gt", "ge"):
                    out.append(("binary", dict(kind=kind, op=op, n=2, form=form)))
        for form in ("list", "numpy scalar", "self") + (("row", "column") if wide else ()):
            out.append(("binary", dict(kind=kind, op="sub", n=2, form=form)))
        out.append(("binary", dict(kind=kind, op="add", n=3 if q else 5, form="array")))
        out.append(("binary", dict(kind=kind, op="sub", n=0, form="array")))
        out.append(("binary", dict(kind=kind, op="pow", n=2, form=2)))
        out.append(("binary", dict(kind=kind, op="mul", n=2, form=-3)))
        if ints:
            out += [("binary", dict(kind=kind, op=o, n=2, form=5)) for o in ("floordiv", "mod")]
        else:
            out += [("binary", dict(kind=kind, op="truediv", n=2, form=f)) for f in ("scalar", 4, "array", "rscalar")]
        for n in (0, 2) if q else (0, 1, 2, 5):
            out.append(("unary", dict(kind=kind, n=n)))
            out.append(("running", dict(kind=kind, n=n)))
        for n in (0, 1, 3, 4):
            out.append(("reductions", dict(kind=kind, n=n)))
        out += [("reductions", dict(kind=kind, n=n, fn=f)) for f in ("min", "max") for n in ((2, 4) if wide and not ints else (2,))]
        for form in ("array", "numpy", "scalar", "self") + (("row",) if wide else ()):
            for op in ("add", "sub") if q and form != "scalar" else ("add", "sub", "mul"):
                out.append(("inplace", dict(kind=kind, op=op, n=2, form=form)))
        for form in ("array", "first", "tuple", "numpy"):
            for op in ("add", "maximum") if q else UFUNC:
                out.append(("into", dict(kind=kind, op=op, n=2, form=form)))
    for form in ("array", "numpy", "rnumpy"):
        for n in (0, 1, 3):
            out.append(("masks", dict(n=n, form=form)))
    return out

"""C32 the Jaccard distance"""
from checks.common import *

FUNCTIONS = "calculate.jaccard_distance, _jaccard_distance; data.MaskArray.data, MaskGroup.data"
BOUNDS = "masks of 0 to 5 elements (7 in the thorough tier) of any content; weights any in [0, 64] (formula: any in [-64, 64] with a union away from zero); triangle inequality: 3 masks of up to 3 elements (4 in the thorough tier)"


def masks_of(S, name, n, kind):
    """(mask object, element truth values)"""
    b = S.bools(name, n)
    if kind == "ndarray":
        return S.arr(b, "<?"), b
    if kind == "mask":
        return S.gcl.MaskArray(S.arr(b, "<?")), b
    if kind == "strided":
        c = S.bools(name + "_gap", n)
        return S.arr([x for ab in zip(b, c) for x in ab], "<?")[::2], b
    c = S.bools(name + "_2", n)
    agg = "or" if kind == "or" else "and"
    g = S.gcl.MaskGroup({"a": S.gcl.MaskArray(S.arr(b, "<?")), "b": S.gcl.MaskArray(S.arr(c, "<?"))}, agg)
    return g, [(S.any if kind == "or" else S.all)([x, y]) for x, y in zip(b, c)]


def formula(S, n, ka, kb, w):
    a, ta = masks_of(S, "a", n, ka)
    b, tb = masks_of(S, "b", n, kb)
    J = S.gcl.calculate.jaccard_distance
    ws = [1.0] * n
    before = snapshot(S, *[x for x in (a, b) if not S.is_array(x)])
    if w == "none":
        d = J(a, b)
    elif w == "explicit none":
        d = J(a, b, None)
    else:
        ws = S.floats("w", n, 0, 64) if w == "weights" else [S.float("w%d" % i, -64, 64) for i in range(n)]
        W = S.arr(ws, "<f8")
        d = J(a, b, weights=W) if w == "weights" else J(a, b, W)
        S.same(W, ws, "weights left as they were")
    diff = un = 0.0
    for x, y, v in zip(ta, tb, ws):
        diff = diff + S.ite(S.iff(x, y), 0.0, v)
        un = un + S.ite(S.any([x, y]), v, 0.0)
    if w == "signed":
        S.gap(un, 0, 1e-2)
    else:
        S.assume(S.any([un == 0, un > 1e-2]))
    if S.truth(un == 0):
        S.close(d, 0.0, "nothing in the union: no distance")
    else:
        S.close(d * un, diff, "symmetric difference over union")
    unchanged(S, before, *[x for x in (a, b) if not S.is_array(x)], what="mask")
    for x, t in ((a, ta), (b, tb)):
        if S.is_array(x):
            S.same(x, t, "masks left as they were")


def metric(S, n, w):
    a, ta = masks_of(S, "a", n, "mask")
    b, tb = masks_of(S, "b", n, "mask")
    J = S.gcl.calculate.jaccard_distance
    args = [] if w == "none" else [S.arr(S.floats("w", n, 0, 64), "<f8")]
    if args:
        S.assume(S.all([S.any([x == 0, x > 1e-2]) for x in S.lst(args[0])]))
    d, e = J(a, b, *args), J(b, a, *args)
    S.close(d, e, "symmetric")
    S.check(S.all([d >= 0, d <= 1 + 1e-9]), "between 0 and 1")
    S.close(J(a, a, *args), 0.0, "no distance to itself")
    S.close(J(a, a.copy(), *args), 0.0, "no distance to an equal mask")
    same = S.all([S.iff(x, y) for x, y in zip(ta, tb)])
    if w == "none":
        S.check(S.iff(d == 0, same), "zero exactly for equal masks")
    else:
        S.check(S.implies(same, d == 0), "zero for equal masks")


def triangle(S, n, w):
    J = S.gcl.calculate.jaccard_distance
    ms = []
    for k in "abc":
        bits = S.choose(k, list(range(2 ** n)))
        ms.append(S.gcl.MaskArray(S.arr([bool(bits >> i & 1) for i in range(n)], "<?")))
    args = [] if w == "none" else [S.arr(S.floats("w", n, 0, 64), "<f8")]
    if args:
        S.assume(S.all([S.any([x == 0, x > 1e-2]) for x in S.lst(args[0])]))
    ab, bc, ac = J(ms[0], ms[1], *args), J(ms[1], ms[2], *args), J(ms[0], ms[2], *args)
    S.check(ac <= ab + bc + 1e-9, "triangle inequality")


def tasks(tier):
    q = tier == "quick"
    out = []
    for n in (0, 1, 2, 3) if q else range(6):
        for w in ("none", "weights", "signed"):
            out.append(("formula", dict(n=n, ka="mask", kb="mask", w=w), 1 + n))
        out.append(("metric", dict(n=n, w="none"), 1 + n))
        out.append(("metric", dict(n=n, w="weights"), 1 + n * n))
    for ka, kb in [("ndarray", "ndarray"), ("ndarray", "mask"), ("mask", "ndarray"), ("and", "mask"), ("mask", "or"), ("or", "and"), ("strided", "mask"), ("ndarray", "or")]:
        for w in ("none", "weights", "explicit none"):
            out.append(("formula", dict(n=2, ka=ka, kb=kb, w=w), 2))
    for n in (4, 5) if q else (6, 7):
        out.append(("formula", dict(n=n, ka="mask", kb="mask", w="none"), 20))
    out += [("triangle", dict(n=2, w="none"), 5), ("triangle", dict(n=2, w="weights"), 8), ("triangle", dict(n=3, w="none"), 20)]
    if not q:
        out += [("triangle", dict(n=3, w="weights"), 60), ("triangle", dict(n=4, w="none"), 100)]
    return out

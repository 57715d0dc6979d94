"""C05 mask algebra"""
from checks.common import *

FUNCTIONS = "data.MaskArray.__and__/__or__/__invert__/__eq__/__ne__/__setitem__, data.MaskGroup.__and__/__or__/__invert__/__eq__/__ne__, data._mask_eq/_mask_neq"
BOUNDS = "masks of 0 to 5 positions (8 thorough), groups of 1 to 3 members and one nested level, every key form for assignment"

SH = {"flat": {"a": None, "b": None}, "one": {"a": None}, "nest": {"a": None, "b": ("and", {"c": None, "d": None})}, "nestor": {"a": ("or", {"c": None, "d": None}), "b": None}}


def operand(S, name, n, kind):
    if kind == "mask":
        b = S.bools(name, n)
        return S.gcl.MaskArray(S.arr(b, "<?")), b
    if kind == "np":
        b = S.bools(name, n)
        return S.arr(b, "<?"), b
    sh, agg = kind
    g, t = group(S, name, n, SH[sh], agg)
    return g, aggregate(S, agg, t)


def binary(S, n, left, right):
    x, bx = operand(S, "x", n, left)
    y, by = operand(S, "y", n, right)
    before = snapshot(S, x, y)
    M = S.gcl.MaskArray
    for nm, r, w in [("and", x & y, [S.all(p) for p in zip(bx, by)]), ("or", x | y, [S.any(p) for p in zip(bx, by)]),
                     ("eq", x == y, [S.iff(*p) for p in zip(bx, by)]), ("ne", x != y, [S.Not(S.iff(*p)) for p in zip(bx, by)]),
                     ("not", ~x, [S.Not(p) for p in bx])]:
        S.check(type(r) is M, nm + " gives a mask")
        S.same(r.data, w, nm + " element by element")
    unchanged(S, before, x, y)


def same_object(S, n, kind):
    x, bx = operand(S, "x", n, kind)
    S.same((x & x).data, bx, "x & x")
    S.same((x | x).data, bx, "x | x")
    S.same((x == x).data, [True] * n, "x == x")
    S.same((x != x).data, [False] * n, "x != x")
    r = x & x
    before = snapshot(S, x)
    r._data[...] = True
    unchanged(S, before, x, what="writing to a result: operand")
    s = ~x
    s._data[...] = False
    o = x | x
    o._data[...] = S.np.logical_not(o._data)
    unchanged(S, before, x, what="writing to a result: operand")


def lengths(S, n, m, left, right):
    x, _ = operand(S, "x", n, left)
    y, _ = operand(S, "y", m, right)
    S.raises(ValueError, lambda: x == y, "== rejects different lengths")
    S.raises(ValueError, lambda: x != y, "!= rejects different lengths")


def reject(S, left, bad):
    x, bx = operand(S, "x", 2, left)
    y = {"list": [True, False], "tuple": (True, True), "int": 1, "none": None, "str": "ab", "bool": True, "dict": {"a": True}, "float": 1.0, "set": {1}}[bad]
    before = snapshot(S, x)
    for nm, f in [("&", lambda: x & y), ("|", lambda: x | y), ("==", lambda: x == y), ("!=", lambda: x != y)]:
        S.raises(ValueError, f, "%s rejects a %s" % (nm, bad))
    unchanged(S, before, x)


def assign(S, n, key, val):
    x, bx = operand(S, "x", n, "mask")
    k, rws = key_of(S, key, n)
    kb = snapshot(S, k) if hasattr(k, "data") and not isinstance(k, (int, slice, memoryview)) else None
    if val == "scalar":
        v = S.bool("v")
        vs = [v] * len(rws)
    else:
        vs = [S.bool("v%d" % i) for i in range(len(rws))]
        v = S.arr(vs, "<?") if val == "arr" else S.gcl.MaskArray(S.arr(vs, "<?"))
        if key == "int":
            v = vs[0]
    x[k] = v
    want = list(bx)
    for i, w in zip(rws, vs):
        want[i] = w
    S.check(len(x) == n, "length kept")
    S.same(x.data, want, "exactly the subset is assigned")
    if kb is not None:
        unchanged(S, kb, k, what="key")


def tasks(tier):
    out = []
    kinds = ["mask", ("flat", "and"), ("flat", "or"), ("nest", "or"), ("nestor", "and"), ("one", "or")]
    rights = kinds + ["np"]
    n = 4 if tier == "quick" else 7
    for l in kinds:
        for r in rights:
            out.append(("binary", dict(n=n, left=l, right=r)))
            if tier != "quick":
                for k in (0, 1, 3):
                    out.append(("binary", dict(n=k, left=l, right=r)))
            if (n, 2) and (l in ("mask", ("flat", "or")) or tier != "quick"):
                out.append(("lengths", dict(n=3, m=2, left=l, right=r)))
                out.append(("lengths", dict(n=1, m=4, left=l, right=r)))
        out.append(("same_object", dict(n=3, kind=l)))
        for b in ("list", "tuple", "int", "none", "str", "bool", "float") if tier == "quick" else ("list", "tuple", "int", "none", "str", "bool", "dict", "float", "set"):
            out.append(("reject", dict(left=l, bad=b)))
    for l in ("mask", ("flat", "and")):
        out.append(("binary", dict(n=0, left=l, right="mask")))
        out.append(("binary", dict(n=1, left=l, right="np")))
    for k in (KEYS if tier != "quick" else KEYS_QUICK):
        for v in ("scalar", "arr", "mask"):
            if k in (("idx_arr", 2), ("idx_list", 2), ("idx_arr", 3)) and v != "scalar":
                pass
            out.append(("assign", dict(n=4 if tier == "quick" else 5, key=k, val=v)))
    return out

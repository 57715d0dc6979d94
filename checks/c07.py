"""C07 serialisation and equal_to"""
import numbers
from checks.common import *
from checks.c06 import SHAPES

FUNCTIONS = "serialize() of every data array, MaskArray, MaskGroup, AdjacencyList, ParticleSet, Graphicle; constructors from its output; data._maskgroup_equal, MaskGroup.equal_to"
BOUNDS = "0 to 4 rows, groups nested to depth 3, 18 sets of populated attributes; all contents symbolic"


def plain_data(S, v, what):
    """plain Python containers and numbers only"""
    if isinstance(v, dict):
        S.check(type(v) in (dict,) or hasattr(v, "keys"), what)
        for k, x in v.items():
            S.check(type(k) is str, what + ": keys are strings")
            plain_data(S, x, what)
    elif isinstance(v, (tuple, list)):
        for x in v:
            plain_data(S, x, what)
    else:
        ok = type(v) in (bool, int, float) or (S.sym and not S.is_array(v) and (getattr(v, "dtype", None) is None or S.np.dtype(v.dtype).kind == "b"))
        S.check(ok, "%s: plain numbers, not %s" % (what, type(v)))


def arrays(S, kind, n):
    o, r = make(S, kind, n)
    s = o.serialize()
    plain_data(S, s, kind)
    S.check(isinstance(s, tuple) and len(s) == n, "one entry per record")
    S.same([list(x) if isinstance(x, tuple) else x for x in s], r, "every component in order")
    b = classes(S)[kind](s)
    S.same(b._data, r, "restored")
    S.same(S.lst(b._data.shape), S.lst(o._data.shape), "restored shape")
    S.check(type(b) is type(o) and b._data.dtype == o._data.dtype, "restored type")
    S.same(o._data, r, "original kept")


def groups(S, shape, agg, n):
    g, t = group(S, "g", n, SHAPES[shape], agg)
    s = g.serialize()
    plain_data(S, s, "group")

    def strip(x):
        return {k: strip(v[1]) if isinstance(v, tuple) else v for k, v in x.items()}
    want = strip(t)

    def cmp(a, b, what):
        if isinstance(b, dict):
            S.check(isinstance(a, dict) and list(a) == list(b), what + ": keys")
            for k in b:
                cmp(a[k], b[k], what + "/" + k)
        else:
            S.same(list(a), b, what)
    cmp(s, want, "serialised")
    b = S.gcl.MaskGroup(s, agg)
    S.check(S.truth(b.equal_to(g, check_order=True)) is True, "restored group equals the original")

    def rules(x):
        return {k: ("?", rules(v[1])) if isinstance(v, tuple) else v for k, v in x.items()}
    same_tree(S, ("?", rules(t)), ("?", rules(tree_of(S, b)[1])), "restored")
    same_tree(S, (agg, t), tree_of(S, g), "original kept")


def records(S, kinds, n, g):
    rec, rs = graph(S, n, kinds) if g else particle_set(S, n, kinds)
    s = rec.serialize()
    plain_data(S, s, "record")
    for k in KINDS + (["adj"] if g else []):
        if k in rs:
            S.check(k in s, k + " is serialised")
            S.same([list(x) if isinstance(x, tuple) else x for x in s[k]], rs[k], k + " in order")
        else:
            S.check(k not in s or len(s[k]) == 0, k + " is empty")
    args = {k: v for k, v in s.items() if len(v)}
    if g:
        if "adj" in args:
            args["edges"] = args.pop("adj")
        b = S.gcl.Graphicle.from_numpy(**args)
    else:
        b = S.gcl.ParticleSet.from_numpy(**args)
    holds(S, b, rs, "restored")
    holds(S, rec, rs, "original")


def eq_to(S, n, shape_a, shape_b, order, same_rule=True):
    A, B = SHAPES[shape_a], SHAPES[shape_b]
    ga, ta = group(S, "a", n, A, "and")
    gb, tb = group(S, "b", n, B, "and" if same_rule else "or")
    got = ga.equal_to(gb, check_order=order) if order is not None else ga.equal_to(gb)

    def eq(x, y):
        kx, ky = list(x), list(y)
        if (kx != ky) if order else (sorted(kx) != sorted(ky)):
            return False
        cs = []
        for k in kx:
            if isinstance(x[k], tuple) != isinstance(y[k], tuple):
                return False
            cs.append(eq(x[k][1], y[k][1]) if isinstance(x[k], tuple) else S.eqv(x[k], y[k]))
        return S.all(cs)
    S.check(S.iff(eq(ta, tb), got), "equal_to is exact")
    back = gb.equal_to(ga, check_order=order) if order is not None else gb.equal_to(ga)
    S.check(S.iff(got, back), "equal_to is symmetric")


def eq_copy(S, n, shape):
    g, t = group(S, "g", n, SHAPES[shape], "or")
    S.check(g.equal_to(g.copy(), check_order=True), "equal to its copy")
    S.check(g.equal_to(g), "equal to itself")


def eq_lengths(S, n, m):
    """members of different lengths are not equal"""
    b = S.bools("b", n)
    g = S.gcl.MaskGroup({"a": S.arr(b, "<?")})
    h = S.gcl.MaskGroup({"a": S.arr((b + b)[:m], "<?")})
    S.check(S.Not(g.equal_to(h)), "different lengths")


EXTRA = {"two_rev": {"b": None, "a": None}, "two_other": {"a": None, "c": None}, "nest_and_rev": {"a": ("and", {"y": None, "x": None}), "b": None},
         "nest_in_rev": {"b": None, "a": ("and", {"x": None, "y": None})}, "nest_deep": {"b": None, "a": ("and", {"y": None, "x": ("and", {"z": None})})},
         "nest_names": {"b": None, "a": ("and", {"y": None, "w": None})}}
SHAPES.update(EXTRA)


def tasks(tier):
    q = tier == "quick"
    out = []
    for k in KINDS + ["adj"]:
        for n in ((0, 1, 2, 3, 4) if q else range(8)):
            out.append(("arrays", dict(kind=k, n=n)))
    for sh in SHAPES:
        for agg in ("and", "or", "none"):
            out.append(("groups", dict(shape=sh, agg=agg, n=2 if q else 5)))
        out.append(("eq_copy", dict(n=2, shape=sh)))
    for ks in SUBSETS:
        for n in ((1, 3) if q else (1, 2, 4)):
            out.append(("records", dict(kinds=ks, n=n, g=False)))
    for ks in GSUBSETS:
        for n in ((1, 2, 3) if q else (1, 2, 4)):
            out.append(("records", dict(kinds=ks, n=n, g=True)))
    pairs = [("two", "two"), ("two", "two_rev"), ("two", "two_other"), ("two", "three"), ("one", "two"), ("nest_and", "nest_and"), ("nest_and", "nest_and_rev"),
             ("nest_and", "nest_in_rev"), ("nest_and", "nest_deep"), ("nest_and", "two"), ("nest_and", "nest_names"), ("nest_or", "nest_and"), ("deep", "deep"), ("deep2", "deep2"), ("deep", "deep2")]
    for a, b in pairs:
        for o in (None, True, False):
            out.append(("eq_to", dict(n=2 if q else 4, shape_a=a, shape_b=b, order=o)))
    out.append(("eq_to", dict(n=2, shape_a="two", shape_b="two_rev", order=False, same_rule=False)))
    for a, b in ((1, 2), (2, 1), (2, 3), (1, 3)):
        out.append(("eq_lengths", dict(n=a, m=b)))
    return out

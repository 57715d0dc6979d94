"""C06 mask groups"""
import warnings
from checks.common import *

FUNCTIONS = "data.MaskGroup (construction, data, bitwise_and, bitwise_or, agg_op, mapping protocol, __getitem__), data._mask_dict_convert"
BOUNDS = "1 to 4 members of 0 to 5 positions, nesting to depth 3, every selection kind; member contents fully symbolic"

SHAPES = {
    "one": {"a": None}, "two": {"a": None, "b": None}, "three": {"c": None, "a": None, "b": None}, "four": {"d": None, "c": None, "a": None, "b": None},
    "nest_and": {"b": None, "a": ("and", {"y": None, "x": None})}, "nest_or": {"b": ("or", {"y": None, "x": None}), "a": None},
    "deep": {"p": ("or", {"q": ("and", {"r": None, "s": None}), "t": None}), "u": None},
    "deep2": {"p": ("and", {"q": ("or", {"r": None, "s": None}), "t": None}), "u": ("or", {"v": None})},
}


def order(S, g):
    return list(g.keys())


def aggregation(S, n, shape, agg, enum):
    sh = SHAPES[shape]
    rule = agg
    if enum:
        rule = {"and": S.gcl.data.MaskAggOp.AND, "or": S.gcl.data.MaskAggOp.OR, "none": S.gcl.data.MaskAggOp.NONE}[agg]
    g0, t = group(S, "g", n, sh, "and")
    g = S.gcl.MaskGroup(dict(g0.items()), rule)
    want_and, want_or = aggregate(S, "and", t), aggregate(S, "or", t)
    before = snapshot(S, g)
    S.check(type(g.bitwise_and()) is S.gcl.MaskArray and type(g.bitwise_or()) is S.gcl.MaskArray, "aggregates are masks")
    S.same(g.bitwise_and().data, want_and, "bitwise_and is the conjunction")
    S.same(g.bitwise_or().data, want_or, "bitwise_or is the disjunction")
    S.check(g.agg_op is S.gcl.data.MaskAggOp(agg), "the rule is the one given")
    if agg == "none":
        S.raises(ValueError, lambda: g.data, "no rule: reading data raises")
    else:
        S.same(g.data, want_and if agg == "and" else want_or, "data follows the rule")
        S.same(S.np.asarray(g), want_and if agg == "and" else want_or, "as a numpy array")
    unchanged(S, before, g)
    r = g.bitwise_and()
    r._data[...] = True
    r = g.bitwise_or()
    r._data[...] = False
    unchanged(S, before, g, what="writing to an aggregate: group")
    if agg != "none":
        r = g.data
        r[...] = True
        unchanged(S, before, g, what="writing to the data: group")
        r = g.data
        r[...] = False
        unchanged(S, before, g, what="writing to the data: group")
        S.same(g.data, want_and if agg == "and" else want_or, "data follows the rule")


def default_rule(S, n, shape):
    g0, t = group(S, "g", n, SHAPES[shape], "or")
    g = S.gcl.MaskGroup(dict(g0.items()))
    S.same(g.data, aggregate(S, "and", t), "conjunction by default")


def set_rule(S, n, shape, first, second):
    g, t = group(S, "g", n, SHAPES[shape], first)
    g.agg_op = second
    if second == "none":
        S.raises(ValueError, lambda: g.data, "no rule: reading data raises")
        g.agg_op = first
        second = first
    S.same(g.data, aggregate(S, second, t), "the new rule applies")


def nested_none(S, n):
    """a nested group without a rule cannot be aggregated"""
    g, t = group(S, "g", n, {"a": None, "b": ("none", {"c": None, "d": None})}, "and")
    S.raises(ValueError, lambda: g.data, "nested group without a rule: reading data raises")


def mapping(S, n):
    """construction from dict, nested dict, lists; insertion order; assignment; deletion"""
    a, b, c, d, e = (S.bools(x, n) for x in "abcde")
    g = S.gcl.MaskGroup({"z": S.arr(a, "<?"), "m": S.gcl.MaskArray(S.arr(b, "<?")), "k": {"y": S.arr(c, "<?"), "x": S.arr(d, "<?")}}, "or")
    S.check(order(S, g) == ["z", "m", "k"], "keys in order given")
    S.check(list(g) == ["z", "m", "k"] and len(g) == 3, "iteration and length")
    S.check(type(g["z"]) is S.gcl.MaskArray and type(g["k"]) is S.gcl.MaskGroup, "members are masks")
    S.check(order(S, g["k"]) == ["y", "x"], "nested keys in order")
    S.same(g["z"].data, a, "member z")
    S.same(g["m"].data, b, "member m")
    S.same(g["k"]["y"].data, c, "member k/y")
    S.same(g["k"]["x"].data, d, "member k/x")
    g["m"] = S.arr(e, "<?")
    S.check(order(S, g) == ["z", "m", "k"], "reassigned key keeps its place")
    S.same(g["m"].data, e, "reassigned member")
    S.check(type(g["m"]) is S.gcl.MaskArray, "an array is wrapped")
    g["b"] = S.gcl.MaskArray(S.arr(b, "<?"))
    S.check(order(S, g) == ["z", "m", "k", "b"], "new key at the end")
    S.same(g["b"].data, b, "new member")
    del g["z"]
    S.check(order(S, g) == ["m", "k", "b"], "deleted key is gone")
    S.check("z" not in g and "m" in g, "membership")
    g["z"] = S.arr(a, "<?")
    S.check(order(S, g) == ["m", "k", "b", "z"], "a key put back goes to the end")
    S.same(g["k"]["y"].data, c, "other members untouched")
    S.raises(KeyError, lambda: g["nope"], "unknown key")
    S.raises(KeyError, lambda: g.__setitem__(3, S.arr(a, "<?")), "keys are strings")
    it = list(g.items())
    S.check([k for k, _ in it] == ["m", "k", "b", "z"], "items in order")
    S.same(it[0][1].data, e, "items hold the members")
    S.same(list(g.values())[3].data, a, "values in order")
    sub = S.gcl.MaskGroup({"q": S.arr(a, "<?")}, "or")
    g["sub"] = sub
    S.check(type(g["sub"]) is S.gcl.MaskGroup, "a group stays a group")
    S.check(g.agg_op is S.gcl.data.MaskAggOp.OR, "rule kept")
    S.same(g.data, [S.any(r) for r in zip(e, [S.all(x) for x in zip(c, d)], b, a, a)], "aggregate of the current members")


def replaced(S, n, shape):
    """putting a mask in the place of another leaves that one, and what else holds it, alone"""
    g, t = group(S, "g", n, SHAPES[shape], "or")
    names = list(t)
    old = {k: g[k] for k in names}
    h = g[names]
    other = S.gcl.MaskGroup(dict(g.items()), "or")
    before = snapshot(S, g, other, *old.values())
    new = {k: S.bools("new_" + k, n) for k in names}
    for i, k in enumerate(names):
        m = S.gcl.MaskArray(S.arr(new[k], "<?")) if i % 2 == 0 else S.arr(new[k], "<?")
        h[k] = m
    for k in names:
        S.same(h[k].data, new[k], "the new member")
    S.check(list(h) == names, "order kept")
    S.same(h.data, aggregate(S, "or", new), "aggregate of the new members")
    unchanged(S, before, g, other, *old.values(), what="replaced mask")
    del h[names[0]]
    unchanged(S, before, g, other, *old.values(), what="deleted mask")
    S.check(list(g) == names and list(other) == names, "the other groups keep their members")


def keylist(S, n, shape, keys, agg):
    g, t = group(S, "g", n, SHAPES[shape], agg)
    before = snapshot(S, g)
    r = g[list(keys)]
    S.check(type(r) is S.gcl.MaskGroup, "a group")
    same_tree(S, (agg, {k: t[k] for k in keys}), tree_of(S, r), "members named by the keys")
    unchanged(S, before, g)
    S.raises(KeyError, lambda: g[list(keys) + ["nope"]], "an unknown key is refused")


def select(S, n, shape, key, agg):
    g, t = group(S, "g", n, SHAPES[shape], agg)
    k, rws = key_of(S, key, n)
    before = snapshot(S, g)
    r = g[k]
    S.check(type(r) is S.gcl.MaskGroup, "a group")

    def pick(tr):
        return {a: (v[0], pick(v[1])) if isinstance(v, tuple) else [v[i] for i in rws] for a, v in tr.items()}
    same_tree(S, (agg, pick(t)), tree_of(S, r), "selection of every member")
    unchanged(S, before, g)


def truth(S, n, shape, agg):
    g, t = group(S, "g", n, SHAPES[shape], agg)
    S.check(bool(g) is (n > 0), "truthy when it has positions")
    S.check(bool(S.gcl.MaskGroup()) is False and len(S.gcl.MaskGroup()) == 0, "empty group")


def structured(S, n):
    a, b = S.bools("a", n), S.bools("b", n)
    x = S.np.zeros(n, dtype=[("q", "<?"), ("p", "<?")])
    x["q"] = S.arr(a, "<?")
    x["p"] = S.arr(b, "<?")
    g = S.gcl.MaskGroup.from_numpy_structured(x)
    S.check(order(S, g) == ["q", "p"], "fields in order")
    S.same(g["q"].data, a, "field q")
    S.same(g["p"].data, b, "field p")
    d = quiet(lambda: g.to_dict())
    S.check(list(d) == ["q", "p"], "as a dictionary: fields in order")
    S.same(d["q"], a, "as a dictionary: field q")
    S.same(d["p"], b, "as a dictionary: field p")


def dictionary(S, n, shape, agg):
    """aggregates of the members, by key"""
    g, t = group(S, "g", n, SHAPES[shape], agg)
    before = snapshot(S, g)
    d = quiet(lambda: g.to_dict())
    S.check(type(d) is dict and list(d) == list(t), "the keys, in order")
    for k, v in t.items():
        S.same(d[k], aggregate(S, v[0], v[1]) if isinstance(v, tuple) else v, "aggregate of member " + k)
    unchanged(S, before, g)


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def tasks(tier):
    q = tier == "quick"
    out = []
    for sh in SHAPES:
        for agg in ("and", "or", "none"):
            out.append(("aggregation", dict(n=3 if q else 6, shape=sh, agg=agg, enum=False)))
            if not q or sh == "nest_or":
                out.append(("aggregation", dict(n=2, shape=sh, agg=agg, enum=True)))
        if not q:
            out.append(("aggregation", dict(n=0, shape=sh, agg="or", enum=False)))
            out.append(("aggregation", dict(n=1, shape=sh, agg="and", enum=False)))
        out.append(("default_rule", dict(n=2, shape=sh)))
        out.append(("replaced", dict(n=2 if q else 4, shape=sh)))
        out.append(("truth", dict(n=2, shape=sh, agg="or")))
        for a, b in (("and", "or"), ("or", "and"), ("or", "none"), ("and", "none")):
            out.append(("set_rule", dict(n=2, shape=sh, first=a, second=b)))
    out.append(("truth", dict(n=0, shape="two", agg="and")))
    out += [("dictionary", dict(n=2, shape=sh, agg=a)) for sh in ("two", "nest_or", "deep") for a in ("and", "none")]
    out += [("nested_none", dict(n=2)), ("mapping", dict(n=2)), ("structured", dict(n=3))]
    for sh, ks in [("three", ["a", "c"]), ("three", ["c", "a"]), ("three", ["b"]), ("four", ["b", "d", "a"]), ("four", ["a", "b", "c", "d"]), ("nest_or", ["a", "b"]), ("nest_and", ["a"]), ("deep2", ["u", "p"]), ("two", [])]:
        for agg in ("and", "or", "none"):
            out.append(("keylist", dict(n=2, shape=sh, keys=ks, agg=agg)))
    for k in (KEYS_QUICK if q else KEYS):
        if k in ("bool_list", ("idx_list", 2)):
            continue        # a list is a list of keys for a group
        for sh, agg in [("two", "or"), ("nest_and", "or"), ("deep", "and"), ("nest_or", "none")]:
            if q and sh == "deep" and k == "group":
                continue
            out.append(("select", dict(n=3, shape=sh, key=k, agg=agg)))
    return out

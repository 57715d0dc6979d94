"""C08 flattening and pruning"""
from checks.common import *

FUNCTIONS = "data.MaskGroup.recursive_drop, MaskGroup.flatten, select.leaf_masks, select._leaf_mask_iter"
BOUNDS = "12 tree shapes to depth 4 with latent masks at any level, masks of 1 to 3 positions (5 thorough); all contents symbolic"

L = None
TREES = {
    "flat": {"a": L, "b": L}, "flat_latent": {"a": L, "latent": L, "b": L},
    "one": {"p": ("or", {"a": L, "b": L, "latent": L})},
    "order": {"p": ("or", {"b": L, "a": L, "latent": L}), "c": L, "latent": L},
    "two": {"p": ("or", {"a": L, "latent": L}), "q": ("and", {"b": L, "c": L, "latent": L})},
    "deep": {"t": ("or", {"W": ("or", {"u": L, "d": L, "latent": L}), "b": L, "latent": L}), "g": L},
    "deeper": {"t": ("or", {"W": ("or", {"u": ("and", {"x": L, "y": L, "latent": L}), "d": L, "latent": L}), "b": L, "latent": L}), "latent": L, "g": L},
    "latent_first": {"latent": L, "p": ("or", {"latent": L, "a": L})},
    "nolatent": {"p": ("and", {"a": L, "q": ("or", {"b": L, "c": L})}), "d": L},
    "only_latent_inside": {"p": ("or", {"a": L, "q": ("or", {"b": L, "latent": L})}), "d": L},
    "single": {"a": L}, "latent_group": {"p": ("or", {"a": L, "latent": ("or", {"z": L})}), "b": L},
}


def build(S, name, n, agg):
    return group(S, "g", n, TREES[name], agg)


def dropped(t, key):
    return {k: (v[0], dropped(v[1], key)) if isinstance(v, tuple) else v for k, v in t.items() if k != key}


def value(S, v):
    return aggregate(S, v[0], v[1]) if isinstance(v, tuple) else v


def drop(S, tree, n, agg, key, inplace):
    g, t = build(S, tree, n, agg)
    want = (agg, dropped(t, key))
    r = g.recursive_drop(inplace=inplace) if key == "latent" else g.recursive_drop(key, inplace=inplace)
    same_tree(S, want, tree_of(S, r), "pruned tree")
    same_tree(S, want if inplace else (agg, t), tree_of(S, g), "original")
    if not inplace:
        for k, v in r.items():
            m = v
            while isinstance(m, S.gcl.MaskGroup):
                if not len(m):
                    break
                m = list(m.values())[0]
            if not isinstance(m, S.gcl.MaskGroup):
                m._data[...] = S.np.logical_not(m._data)
        same_tree(S, (agg, t), tree_of(S, g), "original after the pruned tree was written to")


def drop_default(S, tree, n):
    g, t = build(S, tree, n, "or")
    r = g.recursive_drop()
    same_tree(S, ("or", dropped(t, "latent")), tree_of(S, r), "latent dropped by default")
    same_tree(S, ("or", t), tree_of(S, g), "original kept by default")


def rise_of(S, t):
    out = {}
    for k, v in t.items():
        if k == "latent":
            continue
        out[k] = value(S, v)
        if isinstance(v, tuple):
            out.update(rise_of(S, v[1]))
    return out


def leaves_of(t):
    out = {}
    for k, v in t.items():
        if k == "latent":
            continue
        if isinstance(v, tuple):
            out.update(leaves_of(v[1]))
        else:
            out[k] = v
    return out


def flatten(S, tree, n, agg, how):
    g, t = build(S, tree, n, agg)
    r = {"rise": lambda: g.flatten("rise"), "default": lambda: g.flatten(), "agg": lambda: g.flatten("agg"), "leaves": lambda: g.flatten("leaves"),
         "leaf_masks": lambda: S.gcl.select.leaf_masks(g)}[how]()
    if how in ("rise", "default"):
        want = rise_of(S, t)
    elif how == "agg":
        want = {k: value(S, v) for k, v in t.items()}
    else:
        want = leaves_of(t)
    S.check(type(r) is S.gcl.MaskGroup, "a mask group")
    S.check(list(r.keys()) == list(want), "names %s, expected %s" % (list(r.keys()), list(want)))
    for k in want:
        S.check(type(r[k]) is S.gcl.MaskArray, "flat: %s is a mask" % k)
        S.same(r[k].data, want[k], "mask " + k)
    S.check(r.agg_op is S.gcl.data.MaskAggOp("or" if how == "agg" else agg), "aggregation rule")
    same_tree(S, (agg, t), tree_of(S, g), "original")


def tasks(tier):
    q = tier == "quick"
    out = []
    n = 2 if q else 5
    for tr in TREES:
        for agg in ("or", "and"):
            for key in ("latent", "a", "b", "nope", "q"):
                for ip in (False, True):
                    if q and agg == "and" and key not in ("latent", "a"):
                        continue
                    if tr == "latent_group" and key == "a":
                        pass
                    out.append(("drop", dict(tree=tr, n=n, agg=agg, key=key, inplace=ip)))
            for how in ("rise", "default", "agg", "leaves", "leaf_masks"):
                out.append(("flatten", dict(tree=tr, n=n, agg=agg, how=how)))
        out.append(("drop_default", dict(tree=tr, n=n)))
    return out

"""C46 printed mask groups show every mask at its place"""
from checks.common import *

FUNCTIONS = "MaskGroup.__rich__, __str__, __repr__, agg_op"
BOUNDS = "every forest of up to 4 [5] masks and nested groups, each rule at each level, masks of 2 positions with any values, empty groups, 10 names with brackets, colons, spaces and quotes"
ASSUMES = "rich draws the tree of labels it is given on a console 80 columns wide; names and trees fit on it"
NAMES = ["jet", "a[x]", "[red]", "[/b]", "t:smile:", "tau 1", "{0}", "latent", "b\\[c]", "5"]
RULES = {"and": "AND", "or": "OR", "none": "NONE"}


def build(S, nodes, rules, key, n, path="g"):
    """the group below a node: (object, plain tree of names)"""
    d, t = {}, []
    for name, child, kind in nodes[key]:
        if kind == "group":
            d[name], sub = build(S, nodes, rules, child, n, path + "_%d" % child)
            t.append((name, sub))
        else:
            d[name] = S.gcl.MaskArray(S.arr(S.bools("%s_%d" % (path, child), n), "<?"))
            t.append((name, []))
    return S.gcl.MaskGroup(d, rules[key]), t


def drawn(tree, lead=""):
    out = []
    for i, (name, sub) in enumerate(tree):
        last = i == len(tree) - 1
        out.append((lead + ("└── " if last else "├── ") + name).rstrip())
        out += drawn(sub, lead + ("    " if last else "│   "))
    return out


def shown(S, k, first, n=2):
    """k entries, each in the top group or in one of the earlier entries"""
    parent = {}
    for i in range(1, k + 1):
        parent[i] = S.choose("p%d" % i, list(range(i)))
    nodes = {i: [] for i in range(k + 1)}
    for i in range(1, k + 1):
        nodes[parent[i]].append((NAMES[(first + i) % len(NAMES)], i, None))
    empty = S.choose("empty", [False, True]) if k else False  # the last entry is a group without masks
    for i in nodes:
        nodes[i] = [(a, b, "group" if nodes[b] or (empty and b == k) else "mask") for a, b, _ in nodes[i]]
    rules = {i: "and" for i in nodes}
    rules[0] = S.choose("rule", ["and", "or", "none"])
    for i in nodes:
        if i and nodes[i]:
            rules[i] = "or"
    g, t = build(S, nodes, rules, 0, n)
    before = tree_of(S, g)
    lines = [x.rstrip() for x in str(g).splitlines()]
    want = ["MaskGroup(agg_op=%s)" % RULES[rules[0]]] + drawn(t)
    S.check(lines == want, "printed as %s, expected %s" % (lines, want))
    r = repr(g)
    S.check(r == 'MaskGroup(masks=[%s], agg_op=%s)' % (", ".join('"%s"' % x for x, _ in t), RULES[rules[0]]), "repr %s" % r)
    same_tree(S, before, tree_of(S, g), "group left as it was")
    S.check(str(g) == str(g), "printed alike again")


def after_change(S, n):
    """printing follows later changes of the group"""
    g, t = group(S, "g", n, {"a": None, "b": ("and", {"c": None})}, "and")
    str(g), repr(g)
    g["b"]["d[1]"] = S.gcl.MaskArray(S.arr(S.bools("d", n), "<?"))
    del g["a"]
    g.agg_op = "or"
    lines = [x.rstrip() for x in str(g).splitlines()]
    want = ["MaskGroup(agg_op=OR)"] + drawn([("b", [("c", []), ("d[1]", [])])])
    S.check(lines == want, "printed as %s, expected %s" % (lines, want))
    S.check(repr(g) == 'MaskGroup(masks=["b"], agg_op=OR)', "repr %s" % repr(g))


def tasks(tier):
    q = tier == "quick"
    out = [("after_change", dict(n=2))]
    for k in range(5 if q else 6):
        for first in range(0, len(NAMES), 3 if q and k > 2 else 1):
            out.append(("shown", dict(k=k, first=first), k + 1))
    return out

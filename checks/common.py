"""Input builders and oracles shared by the checks."""
import itertools


def group(S, name, n, shape, agg, leaves=None):
    """a mask group; shape is a nested dict of key -> None (leaf) or shape; returns (group, plain tree)"""
    d, t = {}, {}
    for k, sub in shape.items():
        if sub is None:
            b = S.bools(name + "_" + k.replace(":", "_"), n)
            d[k] = S.gcl.MaskArray(S.arr(b, "<?"))
            t[k] = b
        else:
            d[k], t[k] = group(S, name + "_" + k, n, sub[1], sub[0])
            t[k] = (sub[0], t[k])
    return S.gcl.MaskGroup(d, agg), t


def aggregate(S, agg, tree):
    """the aggregate of a plain tree at each position"""
    cols = []
    for v in tree.values():
        cols.append(aggregate(S, v[0], v[1]) if isinstance(v, tuple) else v)
    f = S.all if agg == "and" else S.any
    return [f(row) for row in zip(*cols)]


def tree_of(S, g):
    """plain view of a MaskGroup: (agg, {key: leaf list or (agg, ..)})"""
    if isinstance(g, S.gcl.MaskGroup):
        return (g._agg_op, {k: tree_of(S, v) for k, v in g.items()})
    return S.lst(g._data)


def same_tree(S, a, b, msg, order=True):
    """two plain trees hold the same keys, rules and booleans"""
    if isinstance(a, tuple) or isinstance(b, tuple):
        S.check(isinstance(a, tuple) and isinstance(b, tuple), msg + ": nesting")
        S.check(a[0] == b[0], msg + ": rule")
        ka, kb = list(a[1]), list(b[1])
        S.check(ka == kb if order else sorted(ka) == sorted(kb), msg + ": keys %s against %s" % (ka, kb))
        for k in ka:
            same_tree(S, a[1][k], b[1][k], msg + "/" + k, order)
        return
    S.same(a, b, msg)


def snapshot(S, *objs):
    """contents of arrays, groups, ... for a later comparison"""
    out = []
    for o in objs:
        if isinstance(o, S.gcl.MaskGroup):
            out.append(tree_of(S, o))
        else:
            out.append(S.lst(o))
    return out


def unchanged(S, before, *objs, what="operand"):
    for i, (b, o) in enumerate(zip(before, objs)):
        if isinstance(o, S.gcl.MaskGroup):
            same_tree(S, b, tree_of(S, o), "%s %d left as it was" % (what, i))
        else:
            S.same(b, S.lst(o), "%s %d left as it was" % (what, i))


def key_of(S, spec, n, name="k"):
    """a subscript; returns (key, row indices selected or None when one record)

    boolean keys are symbolic, the returned rows fork on them
    """
    kind = spec[0] if isinstance(spec, (list, tuple)) else spec
    if kind == "int":
        i = S.pick(S.int(name, -n, n - 1))
        return i, [range(n)[i]]
    if kind == "slice":
        k = slice(*spec[1:])
        return k, list(range(n))[k]
    if kind in ("bool_list", "bool_arr", "mask", "group"):
        b = S.bools(name, n)
        vals = [S.truth(x) for x in b]
        rows = [i for i, v in enumerate(vals) if v]
        if kind == "bool_list":
            return vals, rows
        if kind == "bool_arr":
            return S.arr(b, "<?"), rows
        if kind == "mask":
            return S.gcl.MaskArray(S.arr(b, "<?")), rows
        c = S.bools(name + "b", n)
        g = S.gcl.MaskGroup({"a": S.gcl.MaskArray(S.arr(b, "<?")), "b": S.gcl.MaskArray(S.arr(c, "<?"))}, "or")
        vals = [S.truth(S.any([x, y])) for x, y in zip(b, c)]
        return g, [i for i, v in enumerate(vals) if v]
    if kind in ("idx_arr", "idx_list"):
        m = spec[1]
        idx = [S.int("%s%d" % (name, i), -n, n - 1, "<i8") for i in range(m)]
        rows = [range(n)[S.pick(i)] for i in idx]
        if kind == "idx_arr":
            return S.arr(idx, "<i8"), rows
        return [S.pick(i) for i in idx], rows
    if kind == "ellipsis":
        return Ellipsis, list(range(n))
    raise ValueError(spec)


KEYS = ["int", ("slice", None, None, None), ("slice", 1, None, None), ("slice", None, -1, None), ("slice", None, None, -1),
        ("slice", 0, 3, 2), ("slice", 2, 1, None), "bool_list", "bool_arr", "mask", "group", ("idx_arr", 2), ("idx_list", 2), ("idx_arr", 3)]
KEYS_QUICK = ["int", ("slice", 1, None, None), ("slice", None, None, -1), ("slice", 2, 1, None), "bool_list", "bool_arr", "mask", "group", ("idx_arr", 2), ("idx_list", 2)]

I4 = (-2**31, 2**31 - 1)
I2 = (-2**15, 2**15 - 1)
KINDS = ["pdg", "pmu", "color", "helicity", "status", "final"]


def classes(S):
    g = S.gcl
    return dict(pdg=g.PdgArray, pmu=g.MomentumArray, color=g.ColorArray, helicity=g.HelicityArray, status=g.StatusArray, final=g.MaskArray, adj=g.AdjacencyList)


COLS = dict(pdg=1, pmu=4, color=2, helicity=1, status=1, final=1, adj=2)
DT = dict(pdg="<i4", pmu="<f8", color="<i4", helicity="<i2", status="<i2", final="<?", adj="<i4")


def scalar(S, kind, name, wide=True):
    if kind == "pmu":
        return S.float(name)
    if kind == "final":
        return S.bool(name)
    lo, hi = (I2 if kind in ("helicity", "status") else I4) if wide else (-3, 3)
    return S.int(name, lo, hi, DT[kind])


def rows(S, kind, n, name=None, wide=True):
    """n rows of symbolic components (nested lists; scalars for one-column kinds)"""
    name = name or kind
    if COLS[kind] == 1:
        return [scalar(S, kind, "%s%d" % (name, i), wide) for i in range(n)]
    return [[scalar(S, kind, "%s%d_%d" % (name, i, j), wide) for j in range(COLS[kind])] for i in range(n)]


def make(S, kind, n, name=None, wide=True):
    """(object, its rows)"""
    r = rows(S, kind, n, name, wide)
    a = S.arr(r, DT[kind])
    if n == 0 and COLS[kind] > 1:
        a = a.reshape(0, COLS[kind])
    return classes(S)[kind](a), r


def weights(S, n, name="w"):
    return [S.float("%s%d" % (name, i)) for i in range(n)]


def particle_set(S, n, kinds, name="", wide=True):
    """(ParticleSet, {kind: rows})"""
    objs, rs = {}, {}
    for k in kinds:
        objs[k], rs[k] = make(S, k, n, name + k, wide)
    return S.gcl.ParticleSet(**objs), rs


def graph(S, n, kinds, weighted=False, name="", wide=True):
    """(Graphicle, rows incl. 'adj' and 'weights')"""
    p, rs = particle_set(S, n, [k for k in kinds if k != "adj"], name, wide)
    if "adj" in kinds:
        a, rs["adj"] = make(S, "adj", n, name + "adj", wide)
        if weighted:
            rs["weights"] = weights(S, n, name + "w")
            a = S.gcl.AdjacencyList(a._data, S.arr(rs["weights"], "<f8"))
        return S.gcl.Graphicle(particles=p, adj=a), rs
    return S.gcl.Graphicle(particles=p), rs


def attr(rec, k):
    if k == "weights":
        return rec.adj.weights
    if k == "adj":
        return rec.adj._data
    return getattr(rec, k)._data


def holds(S, rec, rs, msg, idx=None):
    """the record holds exactly rows rs (or the rows idx of them), other attributes are empty"""
    names = list(KINDS) + (["adj", "weights"] if isinstance(rec, S.gcl.Graphicle) else [])
    for k in names:
        v = attr(rec, k)
        if k in rs:
            want = rs[k] if idx is None else [rs[k][i] for i in idx]
            S.same(v, want, "%s: %s" % (msg, k))
        else:
            S.check(len(v) == 0, "%s: %s stays empty" % (msg, k))


def fields_equal(S, a, b):
    """boolean: same attributes"""
    return S.all([S.eqv(attr(a, k), attr(b, k)) for k in list(KINDS) + (["adj", "weights"] if isinstance(a, S.gcl.Graphicle) else [])])


SUBSETS = [["pdg"], ["pmu"], ["color"], ["helicity"], ["status"], ["final"], ["pdg", "pmu", "final"], ["color", "status"],
           ["pmu", "helicity", "status"], KINDS]
GSUBSETS = [["adj"], ["pdg", "adj"], ["final", "adj"], ["pmu", "color", "adj"], ["status", "pdg", "helicity", "adj"], KINDS + ["adj"], ["pdg", "pmu"], ["final"]]


def coords_kept(S, p, *names, what="momenta"):
    """the derived coordinates of momenta agree with those of the same components in a new object"""
    fresh = p.copy()
    for name in names:
        S.close(getattr(p, name), getattr(fresh, name), "%s of the %s left as it was" % (name, what))

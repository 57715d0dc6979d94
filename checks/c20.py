"""C20 hierarchy of the hard process"""
from checks.common import *
from checks.c19 import TOPO, TABLE, descend, event, is_hard, keys_of

FUNCTIONS = "select.hierarchy, _make_tree, _flat_hierarchy, _hard_ancestor_matrix, _hard_parent_matrix, _hard_parent_dict, hard_descendants, vertex_descendants"
BOUNDS = "11 event topologies of 3 to 10 particles whose hard partons form a decay forest, any statuses (incoming, intermediate, outgoing, diffractive, others; positive or negative) of up to 5 particles at a time, the others fixed; any final-state marks or none; descendant masks supplied or computed"
TOPO = dict(TOPO)
TOPO.update({
    "three": [(0, 1), (1, 2), (1, 3), (2, 4), (2, 5), (4, 6), (4, 7)],
    "three_mixed_order": [(4, 6), (4, 7), (2, 4), (2, 5), (1, 3), (1, 2), (0, 1)],
    "hadron": [(0, 1), (0, 2), (1, 3), (1, 4), (3, 5), (4, 5), (2, 5), (5, 6), (5, 7)],
    "two_chains": [(0, 1), (1, 2), (2, 3), (0, 4), (4, 5), (5, 6)],
    "wide": [(0, 1), (1, 2), (1, 3), (1, 4), (2, 5), (3, 6), (3, 7)],
})
import checks.c19 as c19
c19.TOPO.update(TOPO)


def nearest(topo, hs):
    """hard parton -> its nearest hard ancestor or None; None if the hard partons are no forest"""
    under = {i: {j for j in hs if j != i and descend(topo, i)[j]} for i in hs}
    par = {}
    for j in hs:
        up = [i for i in hs if j in under[i]]
        for a in up:
            for b in up:
                if a != b and not ((a in under[b]) ^ (b in under[a])):
                    return None
        if any(a in under[j] for a in up):
            return None
        par[j] = min(up, key=lambda i: len(under[i])) if up else None
    return par


def union(n, masks):
    return [any(m[k] for m in masks) for k in range(n)]


def same_branch(S, got, keys, topo, par, i, msg):
    n = len(TOPO[topo])
    kids = [j for j in par if par[j] == i]
    own = descend(topo, i) if i is not None else None
    if not kids:
        S.check(type(got) is S.gcl.MaskArray, msg + ": a leaf is a mask")
        S.same(got.data, own, msg + ": parton and what it became")
        return
    S.check(type(got) is S.gcl.MaskGroup, msg + ": partons with hard children are groups")
    want = [keys[j] for j in kids] + (["latent"] if i is not None else [])
    S.check(sorted(got.keys()) == sorted(want), "%s holds %s, expected %s" % (msg, list(got.keys()), want))
    S.check(list(got.keys())[-1] == "latent" or i is None, "latent comes last")
    if i is not None:
        S.same(got.data, own, msg + ": union of the subtree is the parton with its descendants")
        rest = union(n, [descend(topo, j) for j in kids])
        S.same(got["latent"].data, [a and not b for a, b in zip(own, rest)], msg + ": latent is what no child holds")
    for j in kids:
        same_branch(S, got[keys[j]], keys, topo, par, j, msg + "/" + keys[j])


def hier(S, topo, status=None, codes=None, ids="signed", final=None, supplied=False, small=True):
    n = len(TOPO[topo])
    codes = codes or [6] * n
    g, ps, ss, es = event(S, topo, [6], status, codes, ids)
    fin = None
    if final == "any":
        fin = S.bools("f", n)
    elif final == "ends":
        fin = [all(a != b for a, _ in TOPO[topo]) for _, b in TOPO[topo]]
    if fin is not None:
        g = S.gcl.Graphicle.from_numpy(pdg=g.pdg._data, status=g.status._data, edges=g.adj._data, final=S.arr(fin, "<?"))
    hs = [i for i in range(n) if S.truth(is_hard(S, ss[i]))]
    S.assume(len(hs) > 0)
    par = nearest(topo, hs)
    S.assume(par is not None)
    d = before = None
    if supplied:
        d = S.gcl.select.hard_descendants(g)
        before = tree_of(S, d)
        r = S.gcl.select.hierarchy(g, d) if supplied == "positional" else S.gcl.select.hierarchy(g, desc=d)
    else:
        r = S.gcl.select.hierarchy(g)
    keys = dict(zip(hs, keys_of([codes[i] for i in hs])))
    S.check(type(r) is S.gcl.MaskGroup, "a mask group")
    if not S.truth(S.any([S.any([s == 22, s == -22]) for s in ss])):
        flat = S.gcl.select.hard_descendants(g)
        same_tree(S, tree_of(S, flat), tree_of(S, r), "without intermediate partons: the descendants")
        S.check(list(r.keys()) == [keys[i] for i in hs], "flat keys")
    else:
        same_branch(S, r, keys, topo, par, None, "top")
        S.check(r._agg_op == S.gcl.MaskGroup(agg_op="or")._agg_op, "aggregates to the union")
        S.check([k for k in r.keys()] == [keys[i] for i in hs if par[i] is None], "top level in event order")
    if supplied:
        same_tree(S, before, tree_of(S, d), "supplied masks left as they were")
        # nor do they share memory with the result
        def leaves(x):
            for v in x.values():
                if isinstance(v, S.gcl.MaskGroup):
                    yield from leaves(v)
                else:
                    yield v
        for m in leaves(r):
            m._data[...] = S.np.logical_not(m._data)
        same_tree(S, before, tree_of(S, d), "supplied masks left as they were when the result is written to")
    S.same(g.adj._data, es, "edges left as they were")
    S.same(g.pdg._data, ps, "codes left as they were")
    S.same(g.status._data, ss, "statuses left as they were")
    if fin is not None:
        S.same(g.final._data, fin, "final marks left as they were")


def tasks(tier):
    q = tier == "quick"
    out = []
    P = dict(_palette=[6, 5, 24, -24, -6, -5, 21, 1, 2, 25])
    for topo in ("one", "fork", "decay", "reversed", "copies"):
        out.append(("hier", dict(topo=topo, **P), 2))
    tt = [-21, -21, None, -22, None, 23, -22, None]
    tc = [21, 21, 6, -6, 24, 5, -24, -5]
    out.append(("hier", dict(topo="ttbar", status=tt, codes=tc, final="ends", **P), 4))
    out.append(("hier", dict(topo="ttbar", status=tt, codes=tc, supplied=True, **P), 4))
    out.append(("hier", dict(topo="ttbar", status=tt, codes=tc, ids="nodes", supplied="positional", final="ends", **P), 4))
    out.append(("hier", dict(topo="three", status=[None, -22, None, -22, None, 23, None], codes=[25, 6, -6, 24, 5, 1, 2], **P), 4))
    out.append(("hier", dict(topo="three_mixed_order", status=[23, None, -22, None, None, -22, -22], codes=[1, 2, 24, 5, -6, 6, 25], final="ends", **P), 4))
    out.append(("hier", dict(topo="hadron", status=[-22, None, 23, None, 71, 72, None, 83, 84], codes=[6, 5, 1, 2, 1, 1, 2, 11, 12], **P), 4))
    out.append(("hier", dict(topo="two_chains", status=[None, -22, 23, -22, None, None], codes=[6, 24, 1, -6, -24, 2], supplied=True, final="ends", **P), 4))
    out.append(("hier", dict(topo="wide", status=[-22, None, -22, None, 23, None, 24], codes=[25, 6, 6, 6, 1, 2, 5], **P), 4))
    out.append(("hier", dict(topo="fork", status=[-21, None, None, 23], final="any", **P), 4))
    out.append(("hier", dict(topo="decay", status=[-21, -22, None, 23, 24], supplied=True, final="any", **P), 4))
    out.append(("hier", dict(topo="merge", status=[None, 23, None, None, 62, 62], **P), 4))
    out.append(("hier", dict(topo="shower", status=[None, None, -23, None, None, 1, 1], supplied=True, **P), 4))
    if not q:
        for topo in TOPO:
            n = len(TOPO[topo])
            for sup in (False, True):
                st = [None] * n if n <= 6 else [None] * 5 + [23, -22, 1, 83, 1][:n - 5]
                out.append(("hier", dict(topo=topo, status=st, codes=[[6, 5, 24][i % 3] for i in range(n)], supplied=sup, final="ends" if sup else None, **P), 15))
                st = st[::-1]
                out.append(("hier", dict(topo=topo, status=st, codes=[[6, 5, 24, 1][i % 4] for i in range(n)], supplied=sup, ids="wide" if n < 6 else "nodes", **P), 15))
    return out

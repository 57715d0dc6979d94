"""C19 descendants of the hard process"""
from collections import Counter
from mcpid.lookup import PdgRecords
from checks.common import *

FUNCTIONS = "select.hard_descendants, select.vertex_descendants, select._pdgs_to_keys, data.Graphicle.hard_mask, data.PdgArray.mask"
BOUNDS = "9 event topologies of 3 to 9 particles with any int32 vertex ids, any assignment of statuses 21 to 24 / -(21..24) / others to the partons, codes any of 2 to 4, 9 target sets, sign sensitivity and strictness; vertices without outgoing edges are entered by one particle"
TABLE = PdgRecords()
TOPO = {
    # (source, destination) per particle, as node numbers
    "one": [(0, 1), (1, 2), (2, 3)],
    "fork": [(0, 2), (1, 2), (2, 3), (2, 4)],
    "decay": [(0, 1), (1, 2), (2, 3), (2, 4), (1, 5)],
    "reversed": [(2, 4), (2, 3), (1, 2), (0, 1)],
    "merge": [(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (3, 5)],
    "ttbar": [(0, 2), (1, 2), (2, 3), (2, 4), (3, 5), (3, 6), (4, 7), (4, 8)],
    "copies": [(0, 1), (1, 2), (2, 3), (3, 4), (3, 5)],
    "loop": [(0, 1), (1, 2), (2, 1), (2, 3), (0, 4)],
    "shower": [(0, 1), (0, 2), (1, 3), (1, 4), (2, 5), (5, 6), (5, 7)],
}


def descend(topo, i):
    """positions reached from the vertex where particle i decays, and i itself"""
    t = TOPO[topo]
    r = [a == t[i][1] for a, _ in t]
    for _ in t:
        r = [r[k] or any(r[j] and t[j][1] == t[k][0] for j in range(len(t))) for k in range(len(t))]
    r[i] = True
    return r


def ids_of(S, topo, wide=True):
    t = TOPO[topo]
    n = 1 + max(max(p) for p in t)
    lo, hi = (-2**31, 2**31 - 1) if wide else (-n, n)
    ids = [S.int("id%d" % i, lo, hi) for i in range(n)]
    for i in range(n):
        for j in range(i):
            S.assume(S.Not(ids[i] == ids[j]))
    return [[ids[a], ids[b]] for a, b in t]


def keys_of(codes):
    names = [str(TABLE.properties([c], ["name"])["name"][0]) for c in codes]
    cnt, seen, out = Counter(names), Counter(), []
    for x in names:
        out.append(x if cnt[x] == 1 else "%s:%d" % (x, seen[x]))
        seen[x] += 1
    return out


def event(S, topo, pal, status, codes=None, ids="wide"):
    """status: None for any status, or a list of fixed ones (None inside: any)"""
    t = TOPO[topo]
    n = len(t)
    status = status or [None] * n
    ss = [S.int("st%d" % i, -2**15, 2**15 - 1) if s is None else s for i, s in enumerate(status)]
    ps = []
    for i in range(n):
        if codes and codes[i] is not None:
            ps.append(codes[i])
        else:
            c = S.int("p%d" % i, -2**31, 2**31 - 1)
            S.assume(S.any([c == p for p in pal]))
            ps.append(c)
    es = [list(p) for p in t] if ids == "nodes" else [[-a - 1 if a % 2 else a + 7, -b - 1 if b % 2 else b + 7] for a, b in t] if ids == "signed" else ids_of(S, topo, ids == "wide")
    g = S.gcl.Graphicle.from_numpy(pdg=S.arr(ps, "<i4"), status=S.arr(ss, "<i2"), edges=S.arr(es, "<i4"))
    return g, ps, ss, es


def is_hard(S, s):
    return S.any([s == v for v in (22, 23, 24, -22, -23, -24)])


def hard(S, topo, pal, target=None, sign=False, strict=True, status=None, codes=None, ids="wide", default=False, kind="set"):
    g, ps, ss, es = event(S, topo, pal, status, codes, ids)
    n = len(ps)
    hs = [i for i in range(n) if S.truth(is_hard(S, ss[i]))]
    S.assume(len(hs) > 0 or target is not None)
    tg = None if target is None else {"set": set, "list": list, "tuple": tuple}[kind](target)
    if target is not None:
        S.hashes_like([c for c in pal] + [-c for c in pal])
    call = (lambda: S.gcl.select.hard_descendants(g)) if default else (lambda: S.gcl.select.hard_descendants(g, tg, sign_sensitive=sign, strict=strict))
    how, r = S.outcome(call)
    if target is not None:
        hit = lambda p, c: S.any([p == c] if sign else [p == c, p == -c])
        want = set(target) if sign else {abs(c) for c in target}
        sel = [i for i in hs if S.truth(S.any([hit(ps[i], c) for c in want]))]
        missing = any(not S.truth(S.any([hit(ps[i], c) for i in hs])) for c in want)
        if not sel or (strict and missing):
            S.check(how == "raised" and isinstance(r, ValueError), "missing targets raise ValueError")
            return
        hs = sel
    if how == "raised":
        raise r
    S.check(type(r) is S.gcl.MaskGroup, "a mask group")
    keys = keys_of([S.pick(ps[i]) for i in hs])
    S.check(list(r.keys()) == keys, "keyed %s, expected %s" % (list(r.keys()), keys))
    S.check(r.agg_op.name == "OR" if hasattr(r.agg_op, "name") else True, "aggregates to the union")
    for k, i in zip(keys, hs):
        S.check(type(r[k]) is S.gcl.MaskArray, "a mask")
        S.same(r[k].data, descend(topo, i), "%s: parton %d and what it became" % (k, i))
    S.same(g.edges if False else g.adj._data, es, "edges left as they were")
    S.same(g.pdg._data, ps, "codes left as they were")
    S.same(g.status._data, ss, "statuses left as they were")


TARGETS = [None, [6], [-6], [6, 5], [6, -6], [5], [25], [6, 25], [-5, 6]]


def tasks(tier):
    q = tier == "quick"
    out = []
    for topo in ("one", "fork", "reversed"):
        out.append(("hard", dict(topo=topo, pal=[6, -6], _palette=[6, -6], default=True), 12))
    tt = [-21, -21, -22, None, -22, 23, None, None]
    base = dict(topo="ttbar", pal=[6, -6], _palette=[6, -6, 5, -5, 24, -24, 21], status=tt, codes=[21, 21, 6, -6, 24, 5, -24, -5], ids="signed")
    out.append(("hard", dict(base), 3))
    for tg in TARGETS:
        for sign in (False, True):
            for strict in (True, False):
                if tg is None:
                    continue
                out.append(("hard", dict(topo="fork", pal=[6, -6, 5], _palette=[6, -6, 5], target=tg, sign=sign, strict=strict, ids="signed",
                                         status=[-21, -21, None, -23], kind="list" if len(tg) == 2 and strict else "tuple" if sign else "set"), 2))
                if not q:
                    out.append(("hard", dict(topo="fork", pal=[6, -6, 5], _palette=[6, -6, 5], target=tg, sign=sign, strict=strict, ids="signed"), 8))
                    out.append(("hard", dict(base, target=tg, sign=sign, strict=strict, codes=[21, 21, None, None, 24, 5, -24, -5], pal=[6, -6, 5]), 8))
    for topo in ("decay", "copies", "loop"):
        out.append(("hard", dict(topo=topo, pal=[6], codes=[6, 6, 6, 5, 5], _palette=[6, 5], ids="signed"), 4))
    for topo in ("merge", "shower"):
        n = len(TOPO[topo])
        out.append(("hard", dict(topo=topo, pal=[6], codes=[6, 5] * (n // 2) + [6] * (n % 2), _palette=[6, 5], ids="nodes", status=[None, -23, None, 24, None] + [1] * (n - 5)), 4))
    if not q:
        for topo in TOPO:
            n = len(TOPO[topo])
            out.append(("hard", dict(topo=topo, pal=[6], codes=[6, 5] * (n // 2) + [6] * (n % 2), _palette=[6, 5], ids="wide"), 20))
    return out

"""C18 vertex searches"""
from checks.common import *

FUNCTIONS = "select.hadron_vertices, select.find_vertex"
BOUNDS = "hadron_vertices: up to 3 edges (4 thorough), any ids and statuses; find_vertex: graphs of 1 to 2 edges with any ids and codes, 3 edges with ids -1..1 (more thorough), requested sets of up to two codes"
I = (-2**31, 2**31 - 1)


def hadrons(S, e, lo, hi, st):
    es = [[S.int("s%d" % i, lo, hi), S.int("d%d" % i, lo, hi)] for i in range(e)]
    ss = [S.int("t%d" % i, st[0], st[1]) for i in range(e)]
    a = S.arr(es, "<i4")
    if not e:
        a = a.reshape(0, 2)
    adj = S.gcl.AdjacencyList(a)
    stat = S.gcl.StatusArray(S.arr(ss, "<i2"))
    r = S.gcl.select.hadron_vertices(adj, stat)
    S.check(isinstance(r, tuple), "a tuple")
    r = list(r)
    had = [S.any([S.all([t >= 80, t <= 90]), S.all([t >= -90, t <= -80])]) for t in ss]
    for x in r:
        S.check(S.any([S.all([h, x == s]) for h, (s, _) in zip(had, es)]), "only sources of hadronisation edges")
    for h, (s, _) in zip(had, es):
        S.check(S.implies(h, S.any([x == s for x in r])), "every source of a hadronisation edge")
    for i in range(len(r)):
        for j in range(i):
            S.check(S.Not(r[i] == r[j]), "each once")
    S.same(adj._data, es if e else [], "graph left as it was")
    S.same(stat._data, ss, "statuses left as they were")


def find(S, e, lo, hi, codes, ins, outs, wide=False):
    es = [[S.int("s%d" % i, lo, hi), S.int("d%d" % i, lo, hi)] for i in range(e)]
    if wide:
        ps = [S.int("p%d" % i, -2**31, 2**31 - 1) for i in range(e)]
    else:
        ps = [S.choose("p%d" % i, codes) for i in range(e)]
    g = S.gcl.Graphicle.from_numpy(pdg=S.arr(ps, "<i4"), edges=S.arr(es, "<i4"))
    if wide:
        S.hashes_like(list(ins or ()) + list(outs or ()))
    kw = {}
    if ins is not None:
        kw["pdgs_in"] = set(ins)
    if outs is not None:
        kw["pdgs_out"] = set(outs)
    r = S.lst(S.gcl.select.find_vertex(g, **kw))
    ok = []
    for row in es:
        for x in row:
            ok.append((x, S.all([S.any([S.all([d == x, p == c]) for p, (_, d) in zip(ps, es)]) for c in ins or ()]
                                + [S.any([S.all([s == x, p == c]) for p, (s, _) in zip(ps, es)]) for c in outs or ()])))
    for y in r:
        S.check(S.any([S.all([y == x, c]) for x, c in ok]), "only matching vertices")
    for x, c in ok:
        S.check(S.implies(c, S.any([x == y for y in r])), "every matching vertex")
    for i in range(len(r)):
        for j in range(i):
            S.check(S.Not(r[i] == r[j]), "each once")
    S.same(g.adj._data, es, "graph left as it was")
    S.same(g.pdg._data, ps, "codes left as they were")
    S.check(kw.get("pdgs_in") == (None if ins is None else set(ins)) and kw.get("pdgs_out") == (None if outs is None else set(outs)), "requested sets left as they were")


def neither(S, e):
    es = [[S.int("s%d" % i, -3, 3), S.int("d%d" % i, -3, 3)] for i in range(e)]
    g = S.gcl.Graphicle.from_numpy(pdg=S.arr([1] * e, "<i4"), edges=S.arr(es, "<i4"))
    S.raises(ValueError, lambda: S.gcl.select.find_vertex(g), "neither set given")
    S.raises(ValueError, lambda: S.gcl.select.find_vertex(g, None, None), "neither set given")


SETS = [([5], None), (None, [5]), ([5], [6]), ([5, 6], None), (None, [5, 6]), ([], [5]), ([5, 6], [5]), ([], None), ([-5], [5])]


def tasks(tier):
    q = tier == "quick"
    out = [("neither", dict(e=1)), ("neither", dict(e=2))]
    st = (-2**15, 2**15 - 1)
    for e in (0, 1, 2, 3):
        out.append(("hadrons", dict(e=e, lo=I[0], hi=I[1], st=st), 1 + e * e))
    if not q:
        out.append(("hadrons", dict(e=4, lo=-2, hi=2, st=st), 30))
    for i, (a, b) in enumerate(SETS):
        out.append(("find", dict(e=1, lo=I[0], hi=I[1], codes=[5], ins=a, outs=b, wide=True)))
        out.append(("find", dict(e=2, lo=-1, hi=1, codes=[5, 6], ins=a, outs=b), 6))
        if not q:
            out.append(("find", dict(e=2, lo=I[0], hi=I[1], codes=[5, 6], ins=a, outs=b, wide=True), 20))
            out.append(("find", dict(e=3, lo=-1, hi=1, codes=[5, 6, -5], ins=a, outs=b), 40))
    return out

"""C14 event conversion"""
from checks.common import *

FUNCTIONS = "data.ParticleSet.from_numpy, ParticleSet.from_lhe_event, Graphicle.from_numpy, Graphicle.from_event"
BOUNDS = "1 to 3 particles (5 thorough), 18 sets of supplied attributes, arrays plain or structured; all contents symbolic"


class Event:
    pass


def source(S, k, n, struct, dtype=None):
    """(source array, rows)"""
    r = rows(S, k, n)
    if COLS[k] > 1 and struct:
        nm = dict(pmu=["x", "y", "z", "e"], color=["color", "anticolor"], adj=["in", "out"])[k]
        if struct == "perm":
            order = {"pmu": [3, 1, 0, 2], "color": [0, 1], "adj": [1, 0]}[k]
        else:
            order = range(len(nm))
        a = S.np.zeros(n, dtype=[(nm[j], DT[k]) for j in order])
        for j in order:
            a[nm[j]] = S.arr([row[j] for row in r], DT[k])
        return a, r
    return S.arr(r, dtype or DT[k]), r


def contents(S, a):
    if a.dtype.names:
        return [S.lst(a[x]) for x in a.dtype.names]
    return S.lst(a)


def from_numpy(S, kinds, n, cls, struct=False, weighted=False):
    src, rs = {}, {}
    for k in kinds:
        src["edges" if k == "adj" else k], rs[k] = source(S, k, n, struct)
    if weighted:
        rs["weights"] = weights(S, n)
        src["weights"] = S.arr(rs["weights"], "<f8")
    before = {k: contents(S, v) for k, v in src.items()}
    rec = S.gcl.ParticleSet.from_numpy(**src) if cls == "set" else S.gcl.Graphicle.from_numpy(**src)
    S.check(type(rec) is (S.gcl.ParticleSet if cls == "set" else S.gcl.Graphicle), "type")
    holds(S, rec, rs, "record")
    for k, v in src.items():
        S.same(contents(S, v), before[k], "source %s left as it was" % k)


def from_event(S, kinds, n, struct, masks, extra=False):
    ev = Event()
    rs, src = {}, {}
    for k in kinds:
        a, rs[k] = source(S, k, n, struct)
        setattr(ev, "edges" if k == "adj" else k, a)
        src[k] = a
    if masks:
        fin = S.bools("mf", n)
        other = S.bools("mo", n)
        ev.masks = {"other": S.arr(other, "<?"), "final": S.arr(fin, "<?")}
        if "final" not in kinds:
            rs["final"] = fin
    if extra:
        ev.junk = S.arr([1] * n, "<i4")
        ev.weights_ = None
    before = {k: contents(S, v) for k, v in src.items()}
    attrs = sorted(vars(ev))
    g = S.gcl.Graphicle.from_event(ev)
    S.check(type(g) is S.gcl.Graphicle, "type")
    holds(S, g, rs, "record")
    S.check(sorted(vars(ev)) == attrs, "event keeps its attributes")
    for k, v in src.items():
        S.same(contents(S, v), before[k], "source %s left as it was" % k)
    if masks:
        S.same(ev.masks["final"], fin, "masks of the event left as they were")


MAP = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}


def from_lhe(S, n, struct, dtype):
    S.hashes_like([])
    ev = Event()
    rs, src = {}, {}
    for k in ("pdg", "pmu", "color", "helicity", "status"):
        a, rs[k] = source(S, k, n, struct, dtype if k == "status" else None)
        setattr(ev, k, a)
        src[k] = a
    before = {k: contents(S, v) for k, v in src.items()}
    p = S.gcl.ParticleSet.from_lhe_event(ev)
    S.check(type(p) is S.gcl.ParticleSet, "type")
    want = dict(rs)
    st = []
    for s in rs["status"]:
        w = s
        for old, new in MAP.items():
            w = S.ite(S.eq(s, old), new, w)
        st.append(w)
    want["status"] = st
    want["final"] = [False] * n
    holds(S, p, want, "record")
    for k, v in src.items():
        S.same(contents(S, v), before[k], "source %s left as it was" % k)
    p.final._data[...] = True
    q = S.gcl.ParticleSet.from_lhe_event(ev)
    holds(S, q, want, "converted again")


def tasks(tier):
    q = tier == "quick"
    out = []
    ns = (1, 3) if q else (1, 2, 3, 5)
    for n in ns:
        for ks in SUBSETS:
            for st in (False, "perm"):
                out.append(("from_numpy", dict(kinds=ks, n=n, cls="set", struct=st)))
        for ks in GSUBSETS:
            for st in (False, "perm", "std"):
                out.append(("from_numpy", dict(kinds=ks, n=n, cls="graph", struct=st)))
                for m in (False, True):
                    out.append(("from_event", dict(kinds=ks, n=n, struct=st, masks=m, extra=m)))
            if "adj" in ks:
                out.append(("from_numpy", dict(kinds=ks, n=n, cls="graph", struct=False, weighted=True)))
        for st in (False, "perm"):
            for dt in (None, "<i4", "<i8"):
                out.append(("from_lhe", dict(n=n, struct=st, dtype=dt)))
    out.append(("from_numpy", dict(kinds=[], n=1, cls="graph")))
    out.append(("from_numpy", dict(kinds=[], n=1, cls="set")))
    return out

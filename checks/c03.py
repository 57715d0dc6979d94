"""C03 slicing of records"""
from checks.common import *

FUNCTIONS = "data._dsets, _nonempty_dsets, _composite_getitem, _composite_len, _composite_bool, ParticleSet/Graphicle.__getitem__/__len__/__bool__"
BOUNDS = "1 to 3 particles (5 thorough), 18 sets of populated attributes, with and without edge weights, every subscript kind; all contents symbolic"


def subscript(S, kinds, n, key, g=False, weighted=False):
    rec, rs = graph(S, n, kinds, weighted) if g else particle_set(S, n, kinds)
    S.check(len(rec) == n, "length is the number of particles")
    S.check(bool(rec) is (n > 0), "truth")
    k, idx = key_of(S, key, n)
    res = rec[k]
    S.check(type(res) is type(rec), "type kept")
    holds(S, res, rs, "selection", idx)
    S.check(len(res) == len(idx), "length of the selection is %d, not %d" % (len(idx), len(res)))
    S.check(bool(res) is (len(idx) > 0), "truth of the selection")
    holds(S, rec, rs, "original")


def empty(S, g):
    r = S.gcl.Graphicle() if g else S.gcl.ParticleSet()
    S.check(len(r) == 0 and bool(r) is False, "an empty record")
    e = S.gcl.ParticleSet.from_numpy(pdg=S.arr([], "<i4"))
    S.check(len(e) == 0 and bool(e) is False, "a record of no particles")


def length(S, kinds, n, g):
    rec, rs = graph(S, n, kinds) if g else particle_set(S, n, kinds)
    S.check(len(rec) == n and bool(rec) is (n > 0), "length and truth")


def chained(S, kinds, n):
    rec, rs = graph(S, n, kinds, True)
    b = S.bools("b", n)
    idx = [i for i, x in enumerate(b) if S.truth(x)]
    m = S.gcl.MaskArray(S.arr(b, "<?"))
    holds(S, rec[m][::-1], rs, "mask, then reversal", idx[::-1])
    holds(S, rec[::-1][S.gcl.MaskArray(S.arr(b[::-1], "<?"))], rs, "reversal, then mask", idx[::-1])
    holds(S, rec[m].particles, {k: v for k, v in rs.items() if k not in ("adj", "weights")}, "particles", idx)


def tasks(tier):
    q = tier == "quick"
    out = [("empty", dict(g=False)), ("empty", dict(g=True))]
    keys = KEYS_QUICK if q else KEYS
    for i, ks in enumerate(SUBSETS):
        for j, key in enumerate(keys):
            if q and len(ks) < 6 and (i + j) % 2:
                continue
            out.append(("subscript", dict(kinds=ks, n=3 if len(ks) < 6 or not q else 2, key=key)))
        for n in (0, 1, 2, 4):
            out.append(("length", dict(kinds=ks, n=n, g=False)))
    for i, ks in enumerate(GSUBSETS):
        for j, key in enumerate(keys):
            if q and len(ks) < 7 and (i + j) % 2:
                continue
            for w in ((False, True) if "adj" in ks else (False,)):
                out.append(("subscript", dict(kinds=ks, n=3 if len(ks) < 6 or not q else 2, key=key, g=True, weighted=w)))
        for n in (0, 1, 2, 4):
            out.append(("length", dict(kinds=ks, n=n, g=True)))
    out.append(("chained", dict(kinds=["pdg", "pmu", "final", "adj"], n=3 if q else 5)))
    if not q:
        for key in KEYS:
            out.append(("subscript", dict(kinds=KINDS + ["adj"], n=4, key=key, g=True, weighted=True)))
    return out

"""C11 PDG masks"""
from checks.common import *

FUNCTIONS = "data.PdgArray.mask"
BOUNDS = "0 to 5 particles and 0 to 4 targets (8 and 6 thorough), every code symbolic in -2147483647..2147483647; 3 particles (4 thorough) with 14 fixed, widely spread targets and one symbolic"
LIM = 2**31 - 1


def absval(S, x):
    return S.ite(x < 0, -x, x) if not isinstance(x, int) else abs(x)


def mask(S, n, m, blacklist, sign, form, default=False):
    codes = S.ints("p", n, -LIM, LIM, "<i4")
    targ = S.ints("t", m, -LIM, LIM, "<i4")
    pdg = S.gcl.PdgArray(S.arr(codes, "<i4"))
    t = S.arr(targ, "<i4") if form == "array" else (tuple(targ) if form == "tuple" else list(targ))
    if form == "scalar":
        t = targ[0]
    elif form == "pdg":
        t = S.gcl.PdgArray(S.arr(targ, "<i4"))
    before = snapshot(S, pdg)
    kw = {}
    if blacklist is not None:
        kw["blacklist"] = blacklist
    if sign is not None:
        kw["sign_sensitive"] = sign
    r = pdg.mask(t, **kw)
    S.check(type(r) is S.gcl.MaskArray and len(r) == n, "one entry per particle")
    f = (lambda v: v) if sign else (lambda v: absval(S, v))
    want = []
    for c in codes:
        hit = S.any([S.eq(f(c), f(x)) for x in targ])
        want.append(hit if blacklist is False else S.Not(hit))
    S.same(r.data, want, "exactly the targeted species")
    unchanged(S, before, pdg)
    if form == "array":
        S.same(t, targ, "targets left as they were")
    elif form == "list":
        S.same(t, targ, "targets left as they were")


def many(S, n, blacklist, sign):
    """enough targets, spread widely enough, for numpy to look them up by sorting"""
    codes = S.ints("p", n, -LIM, LIM, "<i4")
    t = S.int("t", -LIM, LIM, "<i4")
    targ = [1000010020, -5, 5, 100443, 6, 7, t, 9, 10, 12, 1000020040, 14, 15, 16, 5]
    pdg = S.gcl.PdgArray(S.arr(codes, "<i4"))
    r = pdg.mask(list(targ), blacklist, sign)
    f = (lambda v: v) if sign else (lambda v: absval(S, v))
    hits = [S.any([S.eq(f(c), f(x)) for x in targ]) for c in codes]
    S.same(r.data, [S.Not(h) for h in hits] if blacklist else hits, "exactly the targeted species")


def complement(S, n, m, sign):
    codes = S.ints("p", n, -LIM, LIM, "<i4")
    targ = S.ints("t", m, -LIM, LIM, "<i4")
    pdg = S.gcl.PdgArray(S.arr(codes, "<i4"))
    a, b = pdg.mask(list(targ), True, sign), pdg.mask(list(targ), False, sign)
    S.same(a.data, [S.Not(x) for x in S.lst(b.data)], "blacklist is the complement of whitelist")
    S.check(len(pdg[a]) + len(pdg[b]) == n, "every particle is in one of the two")


def tasks(tier):
    q = tier == "quick"
    out = []
    for n, m in (((0, 2), (1, 1), (3, 2), (5, 4), (2, 0)) if q else ((0, 3), (1, 1), (3, 2), (4, 0), (6, 3), (8, 6), (5, 5))):
        for b in (True, False, None):
            for s in (True, False, None):
                for f in ("list", "array", "tuple", "pdg"):
                    if q and f in ("tuple", "pdg") and (n, m) != (3, 2):
                        continue
                    if f == "pdg" and m == 0:
                        continue
                    out.append(("mask", dict(n=n, m=m, blacklist=b, sign=s, form=f)))
    for s in (True, False):
        for b in (True, False):
            out.append(("mask", dict(n=3, m=1, blacklist=b, sign=s, form="scalar")))
        out.append(("complement", dict(n=3, m=2, sign=s)))
        for b in (True, False):
            out.append(("many", dict(n=3 if q else 4, blacklist=b, sign=s)))
    return out

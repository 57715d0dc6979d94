"""C13 status codes"""
from checks.common import *

FUNCTIONS = "data.StatusArray.in_range, StatusArray.hard_mask, Graphicle.hard_mask"
BOUNDS = "0 to 4 particles (7 thorough), every status in -32768..32767, limits in -100000..100000"


def mag(S, x):
    return S.ite(x < 0, -x, x) if not isinstance(x, int) else abs(x)


def in_range(S, n, hi, sign, lo=True):
    st = S.ints("s", n, *I2, dtype="<i2")
    a = S.gcl.StatusArray(S.arr(st, "<i2"))
    before = snapshot(S, a)
    kw = {}
    vlo = 0
    if lo:
        kw["min_status"] = vlo = S.int("lo", -100000, 100000)
    if hi:
        kw["max_status"] = vhi = S.int("hi", -100000, 100000)
    if sign is not None:
        kw["sign_sensitive"] = sign
    r = a.in_range(**kw)
    S.check(type(r) is S.gcl.MaskArray, "a mask")
    f = (lambda v: v) if sign else (lambda v: mag(S, v))
    want = []
    for s in st:
        c = [f(s) >= vlo]
        if hi:
            c.append(f(s) <= vhi)
        want.append(S.all(c))
    S.same(r.data, want, "exactly the codes in the range")
    unchanged(S, before, a)


def positional(S, n, lo, hi):
    st = S.ints("s", n, *I2, dtype="<i2")
    a = S.gcl.StatusArray(S.arr(st, "<i2"))
    S.same(a.in_range(lo, hi).data, [S.all([mag(S, s) >= lo, mag(S, s) <= hi]) for s in st], "limits are inclusive")
    S.same(a.in_range(lo, hi, True).data, [S.all([s >= lo, s <= hi]) for s in st], "with sign")


def hard(S, n, via):
    S.hashes_like([])
    st = S.ints("s", n, *I2, dtype="<i2")
    a = S.gcl.StatusArray(S.arr(st, "<i2"))
    before = snapshot(S, a)
    if via == "graph":
        g = S.gcl.Graphicle(particles=S.gcl.ParticleSet(status=a)).hard_mask
    else:
        g = a.hard_mask
    want = {"incoming": 21, "intermediate": 22, "outgoing": 23, "outgoing_nonperturbative_diffraction": 24}
    S.check(set(g.keys()) == set(want) and type(g) is S.gcl.MaskGroup, "the four classes")
    for k, v in want.items():
        S.same(g[k].data, [S.any([S.eq(s, v), S.eq(s, -v)]) for s in st], k)
    S.same(g.data, [S.any([S.eq(s, v * f) for v in want.values() for f in (1, -1)]) for s in st], "union")
    unchanged(S, before, a)
    for k in want:
        g[k]._data[...] = True
    unchanged(S, before, a)
    S.same(a.hard_mask["outgoing"].data, [S.any([S.eq(s, 23), S.eq(s, -23)]) for s in st], "read again")


def tasks(tier):
    q = tier == "quick"
    out = []
    for n in ((0, 1, 3) if q else (0, 1, 2, 4, 7)):
        for hi in (True, False):
            for s in (True, False, None):
                out.append(("in_range", dict(n=n, hi=hi, sign=s)))
        out.append(("in_range", dict(n=n, hi=False, sign=False, lo=False)))
        out.append(("in_range", dict(n=n, hi=True, sign=None, lo=False)))
        for lo, hi in ((80, 90), (0, 0), (21, 29), (-5, 5), (71, 80)):
            out.append(("positional", dict(n=n, lo=lo, hi=hi)))
        for via in ("status", "graph"):
            out.append(("hard", dict(n=n, via=via)))
    return out

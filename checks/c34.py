"""C34 derived quantities always describe the current momenta"""
import math
import warnings
from checks.common import *

FUNCTIONS = "data.MomentumArray data setter, cached coordinates (_zt_pol, _spatial_mag, pt, eta, rapidity, phi, theta, mass, mass_t), delta_R, __getitem__, copy"
BOUNDS = "arrays of 1 to 3 momenta before and 0 to 3 after the assignment, one of each unknown: any transverse momentum from 0.2 to 64, azimuth, pseudorapidity within +-3 and energy with e > |pz| + 0.1; any two reads before and any read after"
NAMES = ["pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t"]
FIX = [[3.0, -4.0, 12.0, 14.0], [-1.5, 2.0, -6.0, 9.0], [8.0, 6.0, 0.0, 12.0]]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def vec(S, name):
    """any momentum, by transverse momentum, azimuth, pseudorapidity and energy"""
    t, f, w, e = S.float(name + "_t", 0.2, 64), S.angle(name + "_f"), S.exp(S.logvar(name + "_eta", 0.05, 20)), S.float(name + "_e", 0.1, 640)
    z = t * (w - 1 / w) / 2
    S.assume(S.all([2 * e * w - t * (w * w - 1) > 0.2 * w, 2 * e * w + t * (w * w - 1) > 0.2 * w]))
    return [t * S.cos(f), t * S.sin(f), z, e]


def some_rows(S, n, name, i=0):
    r = [list(x) for x in (FIX if name == "old" else FIX[::-1])[:n]]
    if n:
        r[i] = vec(S, name)
    return r


def read(S, p, name):
    if name == "delta_R":
        return quiet(lambda: p.delta_R(p, pseudo=False))
    if name == "delta_R_eta":
        return quiet(lambda: p.delta_R(p))
    return quiet(lambda: getattr(p, name))


def given(S, p, kind, new):
    """assign new rows in one of the accepted forms"""
    a = S.arr(new, "<f8").reshape(-1, 4)
    if kind == "rows":
        p.data = [list(r) for r in new]
    elif kind == "struct":
        p.data = S.gcl.MomentumArray(a).data
    elif kind == "object":
        p.data = S.gcl.MomentumArray(a)
    else:
        p.data = a


def assign(S, first, then, n, m, kind="array", via="direct"):
    old, new = some_rows(S, n, "old"), some_rows(S, m, "new", m - 1)
    p = S.gcl.MomentumArray(S.arr(old, "<f8"))
    held = p
    if via == "set":
        rec = S.gcl.ParticleSet(pmu=p)
        held = rec.pmu
    for name in first:
        read(S, p, name)
    if via == "twice":
        p.data = S.arr(FIX, "<f8")
        for name in first:
            read(S, p, name)
    given(S, held, kind, new)
    S.check(len(p) == m, "as many momenta as assigned")
    fresh = S.gcl.MomentumArray(S.arr(new, "<f8").reshape(-1, 4))
    for name in then:
        S.close(read(S, p, name), read(S, fresh, name), name + " of the momenta assigned last")
    S.same(p._data, new if new else S.arr(new, "<f8").reshape(-1, 4), "components assigned last")


def repeat(S, first, then, n):
    """reads neither change the momenta nor each other"""
    rows_ = some_rows(S, n, "old")
    p = S.gcl.MomentumArray(S.arr(rows_, "<f8"))
    a = read(S, p, then)
    ref = a.copy() if hasattr(a, "copy") else a
    for name in first:
        read(S, p, name)
    S.close(read(S, p, then), ref, then + " read again")
    S.close(read(S, p.copy(), then), ref, then + " of a copy")
    S.close(read(S, p[:1], then), read(S, S.gcl.MomentumArray(S.arr(rows_[:1], "<f8")), then), then + " of a part")
    S.same(p._data, rows_, "reads leave the momenta as they were")
    for name in first:
        S.close(read(S, p, name), read(S, S.gcl.MomentumArray(S.arr(rows_, "<f8")), name), name + " after other reads")


def apart(S, name):
    """copies and parts taken before an assignment keep describing the old momenta"""
    old, new = some_rows(S, 2, "old"), some_rows(S, 2, "new", 1)
    p = S.gcl.MomentumArray(S.arr(old, "<f8"))
    read(S, p, name)
    q = p.copy()
    p.data = S.arr(new, "<f8")
    S.close(read(S, q, name), read(S, S.gcl.MomentumArray(S.arr(old, "<f8")), name), name + " of a copy made before")
    S.same(q._data, old, "the copy keeps its components")
    q.data = S.arr(old[:1], "<f8")
    S.close(read(S, p, name), read(S, S.gcl.MomentumArray(S.arr(new, "<f8")), name), name + " when a copy is assigned")


def tasks(tier):
    q = tier == "quick"
    every = NAMES + ["delta_R", "delta_R_eta"]
    out = []
    for name in every:
        out.append(("assign", dict(first=[name], then=[name], n=1, m=1), 2))
        out.append(("assign", dict(first=NAMES, then=[name], n=2, m=2), 5))
        out.append(("repeat", dict(first=[x for x in NAMES if x != name], then=name, n=2), 6))
        if not name.startswith("delta"):
            out.append(("apart", dict(name=name), 3))
    for kind in ("rows", "struct", "object"):
        out.append(("assign", dict(first=NAMES, then=NAMES, n=1, m=1, kind=kind), 4))
    for via in ("set", "twice"):
        out.append(("assign", dict(first=NAMES, then=NAMES, n=1, m=2, via=via), 6))
    out += [("assign", dict(first=NAMES, then=NAMES, n=2, m=0)), ("assign", dict(first=NAMES, then=NAMES, n=1, m=3), 6), ("assign", dict(first=["delta_R"], then=NAMES, n=3, m=1), 6)]
    if not q:
        for a in every:
            for b in every:
                if a != b:
                    out.append(("assign", dict(first=[a], then=[b, a], n=1, m=1), 3))
                    out.append(("repeat", dict(first=[a], then=b, n=1), 3))
    return out

"""C31 event-shape formulas and gradients are exact"""
import math
import warnings
from checks.common import *

FUNCTIONS = "calculate.c_parameter, _c_parameter, thrust, _thrust_with_grad, spherocity, _spherocity_with_grad, _three_norm, _angles_to_axis"
BOUNDS = "1 to 4 momenta; one with any direction and size (or any components, none at all included), the others fixed; for three axes a length from 2**-20 to 1024; the minimiser's result any pair of angles in (-pi, pi], with the axis neither along nor at right angles to a momentum where the gradient is concerned"
FIX = [[3.0, -4.0, 12.0, 14.0], [-1.0, 2.0, -2.0, 9.0], [8.0, 6.0, 0.0, 12.0]]
NORM = [13.0, 3.0, 10.0]


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def momenta(S, n, i=0, how="sphere"):
    """n momenta and their sizes, number i unknown"""
    vs, norms = [list(x) for x in FIX[:n]], list(NORM[:n])
    if how == "sphere":
        r, f, t = S.float("r", 0.25, 64), S.angle("f"), S.angle("t")
        v = [r * S.sin(t) * S.cos(f), r * S.sin(t) * S.sin(f), r * S.cos(t), 2.0]
    elif how == "plane":
        r, f = S.float("r", 0.25, 64), S.angle("f")
        v = [r * S.cos(f), r * S.sin(f), 0.0, 2.0]
    elif how == "rest":
        r, v = 0.0, [0.0, 0.0, 0.0, 1.5]
    elif how == "axis":
        r, k = S.float("r", 0.25, 64), S.choose("along", [0, 1, 2])
        v = [r if c == k else 0.0 for c in range(3)] + [2.0]
    elif how == "scale":
        r = S.float("r", 0.25, 64)
        v, r = [2 * r, -3 * r, 6 * r, 1.0], 7 * r
    vs[i], norms[i] = v, r
    # directions times a fixed length, for assumptions
    dirs, units = [list(x) for x in vs], list(norms)
    if how in ("sphere", "plane", "scale", "axis"):
        dirs[i], units[i] = {"sphere": lambda: ([S.sin(t) * S.cos(f), S.sin(t) * S.sin(f), S.cos(t)], 1), "plane": lambda: ([S.cos(f), S.sin(f), 0], 1),
                             "scale": lambda: ([2, -3, 6], 7), "axis": lambda: ([int(c == k) for c in range(3)], 1)}[how]()
    return vs, norms, dirs, units


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def c_param(S, n, i, how):
    vs, norms, _, _ = momenta(S, n, i, how)
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    c = S.gcl.calculate.c_parameter(p)
    tot = sum(norms)
    want = 0.0
    for a in range(n):
        for b in range(n):
            # |a||b| sin^2 = (|a|^2 |b|^2 - (a.b)^2) / |a||b|, nothing for a particle at rest
            if a == b or (how == "rest" and i in (a, b)):
                continue
            d = dot(vs[a], vs[b])
            want = want + (norms[a] * norms[a] * norms[b] * norms[b] - d * d) / (norms[a] * norms[b])
    S.close(c * tot * tot, 1.5 * want, "C-parameter")
    S.same(p._data, vs, "momenta left as they were")


def objective(S, what, n, i, how, grad=True, options=None):
    """value, gradient, axis and start of the minimiser"""
    vs, norms, dirs, units = momenta(S, n, i, how)
    f, t = S.angle("opt_f"), S.angle("opt_t")
    calls = S.optimise_at([f, t])
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    nx = [S.sin(t) * S.cos(f), S.sin(t) * S.sin(f), S.cos(t)]
    df = [-S.sin(t) * S.sin(f), S.sin(t) * S.cos(f), 0.0]
    dt = [S.cos(t) * S.cos(f), S.cos(t) * S.sin(f), -S.sin(t)]
    moving = [k for k in range(n) if not (how == "rest" and k == i)]
    dots = [dot(vs[k], nx) for k in range(n)]
    perp = [S.normal(norms[k] * norms[k] - dots[k] * dots[k]) for k in range(n)]
    if what == "thrust":
        for k in moving:
            S.assume(dots[k] * dots[k] > 1e-2)
    else:
        for k in moving:
            d = S.normal(dot(dirs[k], nx))
            S.assume(S.all([units[k] - d > 1e-2, units[k] + d > 1e-2, perp[k] > 1e-3, S.normal(units[k] * units[k] - d * d) > 1e-3]))
    fn = getattr(S.gcl.calculate, what)
    opts = dict(options or {})
    out = quiet(lambda: fn(p, **opts))
    if opts.get("return_axis"):
        value, axis = out
        S.check(axis.shape == (3,), "an axis")
        for k in range(3):
            S.close(axis[k], nx[k], "the axis found")
    else:
        value = out
    S.check(len(calls) == 1, "one search")
    tot = sum(norms)
    if what == "thrust":
        sign = [1 if S.truth(d > 0) else -1 for d in dots]
        S.close(value * tot, sum(sign[k] * dots[k] for k in moving), "thrust for the axis found")
        S.close(calls[0]["fun"], -value, "the search is for the largest thrust")
        ders = [-sum(sign[k] * dot(vs[k], d) for k in moving) for d in (df, dt)]
        scale = tot
    else:
        pi = S.pi if how != "rest" else math.pi
        cross = [S.sqrt(perp[k]) if k in moving else 0.0 for k in range(n)]
        S.close(value * tot * tot, 16 / (pi * pi) * sum(cross[k] for k in moving) * sum(cross[k] for k in moving), "spherocity for the axis found")
        S.close(calls[0]["fun"], value, "the search is for the smallest spherocity")
        tc = sum(cross[k] for k in moving)
        ders = [-2 * 16 / (pi * pi) * tc * sum(dots[k] * dot(vs[k], d) / cross[k] for k in moving) for d in (df, dt)]
        scale = tot * tot
    if grad and calls[0]["jac"] is not None:
        g = calls[0]["jac"]
        S.check(len(g) == 2, "a gradient in two angles")
        for k in range(2):
            S.close(g[k] * scale, ders[k], "gradient: %s" % ("azimuth", "inclination")[k])
    S.same(p._data, vs, "momenta left as they were")


# azimuth and inclination with rational cosines, and momenta whose sizes and distances from that axis are rational too
AXES = [((5, -12, 13), (15, 8, 17), [((9, -8, 12), 17), ((-4, 0, 3), 5), ((3, 4, 0), 5)]),
        ((-15, -8, 17), (5, 12, 13), [((4, 0, -3), 5), ((3, 12, 4), 13), ((0, 0, 1), 1)]),
        ((20, 21, 29), (12, 5, 13), [((1, -12, 12), 17), ((0, 0, -1), 1), ((-9, -8, -12), 17)])]


def lengths(S, what, n, axis, free, small=False):
    """a given axis and given directions; a length of any order of magnitude"""
    (a, b, c), (d, e, f), moms = AXES[axis]
    moms = moms[:n]
    w = S.float("r", 2.0 ** -20, 2.0 ** -4) if small else S.float("r", 2.0 ** -4, 1024)
    size = [w if k == free else 1 for k in range(n)]
    vs = [[q * size[k] for q in p] + [20 * size[k]] for k, (p, _) in enumerate(moms)]
    tot = sum(m * size[k] for k, (_, m) in enumerate(moms))
    calls = S.optimise_at([S.turn(a, b, c), S.turn(d, e, f)])
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    value = quiet(lambda: getattr(S.gcl.calculate, what)(p))
    # all of these c f times what they are
    nx = [e * a, e * b, d * c]
    df = [-e * b, e * a, 0]
    dt = [d * a, d * b, -e * c]
    cf = c * f
    dots = [dot(p, nx) for p, _ in moms]
    if what == "thrust":
        sign = [1 if x > 0 else -1 for x in dots]
        S.close(value * tot * cf, sum(abs(dots[k]) * size[k] for k in range(n)), "thrust for the axis")
        ders = [-sum(sign[k] * dot(moms[k][0], v) * size[k] for k in range(n)) for v in (df, dt)]
        scale, over = tot, cf
    else:
        cross = [math.isqrt((m * cf) ** 2 - x * x) for (_, m), x in zip(moms, dots)]
        assert all(y * y == (m * cf) ** 2 - x * x for (_, m), x, y in zip(moms, dots, cross))
        tc = sum(cross[k] * size[k] for k in range(n))
        both = tot * tot * cf * cf
        u = 16 / (S.pi * S.pi)
        S.close(value * both, u * tc * tc, "spherocity for the axis")
        # d|p x n| = -(p.n)(p.dn) / |p x n|, over a common denominator
        den = math.prod(cross)
        ders = [-2 * u * tc * sum(dots[k] * dot(moms[k][0], v) * (den // cross[k]) * size[k] for k in range(n)) for v in (df, dt)]
        scale, over = den, both
    g = calls[0]["jac"]
    if g is not None:
        for k in range(2):
            S.close(g[k] * scale, ders[k] / over, "gradient: %s" % ("azimuth", "inclination")[k])


def search(S, what, seed):
    """where the search may look and where it starts"""
    calls = S.optimise_at([0.3, 0.4])
    p = S.gcl.MomentumArray(S.arr(FIX, "<f8"))
    fn = getattr(S.gcl.calculate, what)
    quiet(lambda: (fn(p, rng_seed=seed), fn(p, True, seed), fn(p, rng_seed=seed + 1), fn(p)))
    S.check(len(calls) == 4, "one search each")
    for k in range(2):
        S.close(calls[0]["x0"][k], calls[1]["x0"][k], "the same seed gives the same start")
    for c in calls:
        b = c["bounds"]
        if b is None:
            continue
        for k in range(2):
            lo = -math.inf if b[k][0] is None else float(b[k][0])
            hi = math.inf if b[k][1] is None else float(b[k][1])
            S.check(S.all([c["x0"][k] >= lo - 1e-9, c["x0"][k] <= hi + 1e-9]), "the search starts within its range")
    # every axis, up to its sign, can be reached
    f, t = S.float("any_f", -4, 4), S.float("any_t", -4, 4)
    for c in calls:
        b = c["bounds"]
        if b is None:
            continue
        (f0, f1), (t0, t1) = [(-1e9 if x is None else float(x), 1e9 if y is None else float(y)) for x, y in b]
        ok = []
        for m in range(-4, 5):
            for q in range(-4, 5):
                # half a turn in azimuth together with a mirrored inclination, half a turn of inclination: the same line
                a = f + m * math.pi
                z = (t if m % 2 == 0 else -t) + q * math.pi
                ok.append(S.all([a >= f0 - 1e-6, a <= f1 + 1e-6, z >= t0 - 1e-6, z <= t1 + 1e-6]))
        S.check(S.any(ok), "the search covers every axis")


def edge(S, what, n, axis):
    """an axis along or at right angles to a momentum: a number, not an error"""
    r = S.float("r", 0.25, 64)
    vs = [list(x) for x in FIX[:n]]
    vs[0] = {"z": [0.0, 0.0, r, 2 * r], "x": [r, 0.0, 0.0, 2 * r]}[axis]
    calls = S.optimise_at([0.0, 0.0])     # the axis is z
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    v = quiet(lambda: getattr(S.gcl.calculate, what)(p))
    tot = r + sum(NORM[1:n])
    if what == "thrust":
        S.close(v * tot, (r if axis == "z" else 0) + sum(abs(x[2]) for x in vs[1:]), "thrust")
    else:
        c = (0 if axis == "z" else r) + sum(math.hypot(x[0], x[1]) for x in vs[1:])
        S.close(v * tot * tot, 16 / (S.pi * S.pi) * c * c, "spherocity")
    for g in calls[0]["jac"] if calls[0]["jac"] is not None else ():
        S.check(not S.isnan(g), "the gradient is a number")


def tasks(tier):
    q = tier == "quick"
    out = []
    for n, i in ((1, 0), (2, 0), (2, 1), (3, 1)) if q else ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2)):
        for how in ("sphere", "axis", "rest", "scale") if q else ("sphere", "plane", "axis", "rest", "scale"):
            if how == "rest" and n == 1:
                continue
            out.append(("c_param", dict(n=n, i=i, how=how), 1 + n * (how == "sphere")))
    for what in ("thrust", "spherocity"):
        out.append(("search", dict(what=what, seed=3), 1))
        for n, axis, i in ((2, 0, 0), (2, 1, 1), (3, 2, 1)) if q else [(n, a, i) for n in (1, 2, 3) for a in range(3) for i in range(n)]:
            for small in (True, False):
                out.append(("lengths", dict(what=what, n=n, axis=axis, free=i, small=small), 2))
        for axis in "zx":
            out.append(("edge", dict(what=what, n=2, axis=axis), 1))
        for n, i, how in ((1, 0, "sphere"), (2, 0, "scale"), (2, 1, "plane"), (2, 0, "rest"), (1, 0, "axis"), (3, 1, "scale")) if q else [(n, i, h) for n in (1, 2, 3) for i in range(n) for h in ("sphere", "plane", "scale", "axis", "rest") if (n, h) != (1, "rest")]:
            for opts in ({}, {"return_axis": True, "rng_seed": 7}) if (n, how) == (1, "sphere") or not q else ({"return_axis": True},):
                out.append(("objective", dict(what=what, n=n, i=i, how=how, options=opts), 3 * n))
    return out

"""C36 results do not depend on threads or scheduling"""
import itertools
import math
import warnings
from checks.common import *

FUNCTIONS = "calculate._delta_R, _delta_R_symmetric, _clust_coeffs, _assignment_cost, _thread_scope, cluster_coeff_distbn; data.MomentumArray.delta_R; select.arg_closest, monte_carlo_tag"
BOUNDS = "2 to 4 momenta (one or two unknown, the others fixed); every order of up to 4 loop iterations; 1 to 8 threads before and during the call; errors from invalid thread counts and from invalid operands"
FIX = [[3.0, -4.0, 12.0, 14.0], [-1.5, 2.0, -6.0, 9.0], [8.0, 6.0, 0.0, 12.0], [-4.0, -3.0, 1.25, 6.0]]
CAND = [[4.0, 3.0, 1.0, 8.0], [0.0, -5.0, 2.5, 7.0], [-6.0, 8.0, -3.0, 12.0]]


def momenta(S, n, i=0, name="a", what=None):
    """n momenta, one of them unknown (where the assignment depends on it, only its size)"""
    if what == "closest":
        t = S.float(name + "_t", 0.5, 32)
        vs = [list(x) for x in FIX[:n]]
        vs[i] = [t * c for c in (0.75, -1.0, 0.0, 1.5)]
        return vs
    t, f, w = S.float(name + "_t", 0.5, 32), S.angle(name + "_f"), S.exp(S.logvar(name + "_eta", 0.1, 10))
    e = S.float(name + "_e", 0.5, 64)
    S.assume(S.all([2 * e * w - t * (w * w - 1) > 0.2 * w, 2 * e * w + t * (w * w - 1) > 0.2 * w]))
    vs = [list(x) for x in FIX[:n]]
    vs[i] = [t * S.cos(f), t * S.sin(f), t * (w - 1 / w) / 2, e]
    return vs


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def calls(S, what, vs, pseudo=True):
    """a function of the number of threads"""
    g = S.gcl
    A = lambda: g.MomentumArray(S.arr(vs, "<f8"))
    if what == "delta_R":
        B = lambda: g.MomentumArray(S.arr(CAND[:2], "<f8"))
        return lambda k: A().delta_R(B(), pseudo, k)
    if what == "delta_R_self":
        def own(k):
            a = A()
            return a.delta_R(a, pseudo, threads=k)
        return own
    if what == "clusters":
        return lambda k: g.calculate.cluster_coeff_distbn(A(), 2.5, pseudo, k)
    if what == "closest":
        B = lambda: g.MomentumArray(S.arr(CAND, "<f8"))
        return lambda k: g.select.arg_closest(A(), B(), k)


def schedule(S, what, n, pseudo=True):
    """the same result in every order of the iterations"""
    f = calls(S, what, momenta(S, n, 0, what=what), pseudo)
    order = S.choose("order", list(itertools.permutations(range(n))))
    a = quiet(lambda: f(2))
    b = quiet(lambda: S.schedule(order, lambda: f(2)))
    S.close(a, b, "the order of the iterations does not matter")


def conflicts(S, what, n, pseudo=True):
    f = calls(S, what, momenta(S, n, n - 1, what=what), pseudo)
    bad, _ = quiet(lambda: S.conflicts(lambda: f(1)))
    S.check(bad == 0, "no element is touched by two iterations, one of them writing (%d)" % bad)


def threads(S, what, n, pseudo=True):
    """the same result for every number of threads; the setting is restored"""
    f = calls(S, what, momenta(S, n, n - 1, what=what), pseudo)
    before = S.choose("before", [1, 2, 3, 8])
    k = S.choose("threads", [1, 2, 3, 4, 8])
    S.threads(before)
    a = quiet(lambda: f(1))
    S.check(S.threads() == before, "thread setting restored")
    b = quiet(lambda: f(k))
    S.check(S.threads() == before, "thread setting restored")
    S.close(a, b, "the number of threads does not matter")


def error(S, what, n, how):
    """the setting is restored when the call fails"""
    g = S.gcl
    vs = momenta(S, n, what=what)
    before = S.choose("before", [1, 3, 8])
    S.threads(before)
    p = g.MomentumArray(S.arr(vs, "<f8"))
    q = g.MomentumArray(S.arr(CAND[:2], "<f8"))
    bad = {"zero": 0, "negative": -1, "many": 10**6, "kind": "two"}.get(how, 2)
    if how == "operand":
        other = S.choose("operand", [None, "momenta", p.data])
    else:
        other = q
    if what == "delta_R":
        f = lambda: p.delta_R(other, True, bad)
    elif what == "delta_R_self":
        f = lambda: p.delta_R(p if how != "operand" else other, False, threads=bad)
    elif what == "clusters":
        f = lambda: g.calculate.cluster_coeff_distbn(p if how != "operand" else other, 1.0, True, bad)
    else:
        f = lambda: g.select.arg_closest(p, other, bad)
    S.raises(Exception, lambda: quiet(f), "an error")
    S.check(S.threads() == before, "thread setting restored after an error")
    # the setting still works
    quiet(lambda: p.delta_R(q, True, 2))
    S.check(S.threads() == before, "thread setting restored")


def default(S, what):
    """the number of threads may be left out"""
    vs = momenta(S, 2, what=what)
    before = S.choose("before", [1, 3, 8])
    S.threads(before)
    p = S.gcl.MomentumArray(S.arr(vs, "<f8"))
    q = S.gcl.MomentumArray(S.arr(CAND, "<f8"))
    f = {"delta_R": lambda: p.delta_R(q), "delta_R_self": lambda: p.delta_R(p), "clusters": lambda: S.gcl.calculate.cluster_coeff_distbn(p, 1.0), "closest": lambda: S.gcl.select.arg_closest(p, q)}[what]
    quiet(f)
    S.check(S.threads() == before, "thread setting restored")


def tasks(tier):
    q = tier == "quick"
    out = []
    for what in ("delta_R", "delta_R_self", "clusters", "closest"):
        out.append(("default", dict(what=what)))
        w = 5 if what in ("clusters", "closest") else 2
        for n in (2, 3) if q else (2, 3, 4):
            if what == "closest" and n > (2 if q else 3):
                continue
            for ps in ((True,) if q or what == "closest" else (True, False)):
                out.append(("schedule", dict(what=what, n=n, pseudo=ps), w * n))
                out.append(("threads", dict(what=what, n=n, pseudo=ps), w * n))
                out.append(("conflicts", dict(what=what, n=n, pseudo=ps), w))
        for how in ("zero", "negative", "many", "kind", "operand"):
            out.append(("error", dict(what=what, n=2, how=how), 1))
    return out

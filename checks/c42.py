"""C42 Monte-Carlo tags give every selected hard parton its own jet"""
import itertools
from collections import Counter
from checks.common import *
from checks.c25 import costs, quiet

FUNCTIONS = "select.monte_carlo_tag, _pdgs_to_keys, arg_closest; calculate.aggregate_momenta, _assignment_cost; data.StatusArray.hard_mask, PdgArray.name, MaskGroup"
BOUNDS = "up to 3 [4] particles with any status and PDG codes out of a choice covering every branch, black- and whitelists with either sign, every choice of portions; 2 or 3 [4] clusters with any masks over up to 3 final particles of the record or of momenta given; the momenta are fixed"


NAMES = {5: "b", -5: "b~", 24: "W+", -24: "W-", 11: "e-", -11: "e+", 1: "d", 2: "u", 21: "g"}


def keys(codes):
    names = [NAMES[c] for c in codes]
    count, seen, out = Counter(names), Counter(), []
    for n in names:
        out.append(n if count[n] == 1 else "%s:%d" % (n, seen[n]))
        seen[n] += 1
    return out


def record(S, statuses, codes, finals=None):
    n = len(statuses)
    pmu = [[3.0, -4.0, 12.0, 14.0], [-1.5, 2.0, -6.0, 9.0], [8.0, 6.0, 0.0, 12.0], [-4.0, -3.0, 1.25, 6.0], [5.0, 1.0, 2.0, 7.0],
           [4.0, 3.0, 1.0, 8.0], [0.0, -5.0, 2.5, 7.0], [-6.0, 8.0, -3.0, 12.0]]
    pmu = (pmu * 2)[:n]
    g = S.gcl
    kw = dict(pdg=g.PdgArray(S.arr(codes, "<i4")), pmu=g.MomentumArray(S.arr(pmu, "<f8")), status=g.StatusArray(S.arr(statuses, "<i2")))
    if finals is not None:
        kw["final"] = g.MaskArray(S.arr(finals, "<?"))
    return g.ParticleSet(**kw), pmu


JETS = [[4.25, 3.0, 1.0, 8.0], [0.0, -5.0, 2.5, 7.0], [-6.0, 8.0, -3.0, 12.0], [-0.75, 1.5, 0.5, 2.0]]


def expect(S, out, masks, jets, pmu, codes, chosen, what=""):
    """the tags are those of the chosen particles, with the clusters arg_closest gives them"""
    F = S.gcl.MomentumArray(S.arr([pmu[i] for i in chosen], "<f8"))
    C = S.gcl.MomentumArray(S.arr(jets, "<f8"))
    d = costs(S, [pmu[i] for i in chosen], jets)
    tot = sorted(sum(d[i][j] for i, j in enumerate(p)) for p in itertools.permutations(range(len(jets)), len(chosen)))
    if len(tot) > 1 and tot[1] - tot[0] < 1e-6:
        return          # equally good assignments
    idx = [int(i) for i in quiet(lambda: S.gcl.select.arg_closest(F, C))]
    S.check(isinstance(out, S.gcl.MaskGroup), "a mask group")
    S.check(out.agg_op is S.gcl.data.MaskAggOp.OR, "aggregates to the union")
    S.check(list(out.keys()) == keys([codes[i] for i in chosen]), "tags in event order %s" % list(out.keys()))
    for k, j in zip(keys([codes[i] for i in chosen]), idx):
        S.same(out[k].data, masks[j], "the closest cluster")
    S.same(out.data, [S.any([masks[j][r] for j in idx]) for r in range(len(masks[0]))], "union of the clusters")


def tag(S, n, portions, lists, sign=None):
    """which partons are tagged"""
    st = [S.int("st%d" % i, -100, 100) for i in range(n)]
    cd = [S.choose("pdg%d" % i, [5, -5, 24, 11]) for i in range(n)]
    P, pmu = record(S, st, cd)
    kw = {}
    if portions != "default":
        kw = dict(intermediate="i" in portions, outgoing="o" in portions)
    want = ([22] if "i" in portions else []) + ([23] if portions == "default" or "o" in portions else [])
    if lists:
        name, codes = lists
        kw[name] = codes
        kw["whitelist" if name == "blacklist" else "blacklist"] = S.choose("other", [None, []])
    if sign is not None:
        kw["sign_sensitive"] = sign
    # clusters of a separate set of particles with given momenta: each jet is one particle
    masks = [[i == j for i in range(len(JETS))] for j in range(len(JETS))]
    cl = S.gcl.MomentumArray(S.arr(JETS, "<f8"))
    cm = [S.gcl.MaskArray(S.arr(m, "<?")) for m in masks]
    chosen = []
    for i in range(n):
        if not S.truth(S.any([S.any([S.eq(st[i], w), S.eq(st[i], -w)]) for w in want])):
            continue
        if lists:
            hit = cd[i] in lists[1] if sign else abs(cd[i]) in [abs(c) for c in lists[1]]
            if hit != (lists[0] == "whitelist"):
                continue
        chosen.append(i)
    if not chosen:
        if lists and any(S.truth(S.any([S.any([S.eq(st[i], w), S.eq(st[i], -w)]) for w in want])) for i in range(n)):
            S.raises(IndexError, lambda: S.gcl.select.monte_carlo_tag(P, cm, cl, **kw), "no partons left")
        return
    out = quiet(lambda: S.gcl.select.monte_carlo_tag(P, cm, cl, **kw))
    expect(S, out, masks, JETS, pmu, cd, chosen)
    S.same(P.status.data, st, "statuses left as they were")
    S.same(P.pdg.data, cd, "codes left as they were")
    S.same(P.pmu._data, pmu, "momenta left as they were")


def tag_clusters(S, k, given):
    """which clusters: any masks over the final particles"""
    st, cd = [23, 21, 1, -23, 1, 1], [5, 21, 11, 5, 2, 1]
    fin = [False, False, True, False, True, True]
    P, pmu = record(S, st, cd, fin)
    f = [pmu[2], pmu[4], pmu[5]]
    if given:
        f = [[1.0, 2.0, 3.0, 4.0], [-2.0, 0.5, 1.0, 3.0], [4.0, -4.0, -7.0, 10.0]]
    masks = [S.bools("m%d" % j, 3) for j in range(k)]
    for m in masks:
        S.assume(S.any(m))
    vals = [[S.truth(b) for b in m] for m in masks]
    if len(set(map(tuple, vals))) < k:
        return          # equal clusters: any of them
    cm = [S.gcl.MaskArray(S.arr(m, "<?")) for m in masks]
    jets = [[sum(f[i][c] for i in range(3) if m[i]) for c in range(4)] for m in vals]
    out = quiet(lambda: S.gcl.select.monte_carlo_tag(P, cm, S.gcl.MomentumArray(S.arr(f, "<f8"))) if given else S.gcl.select.monte_carlo_tag(P, cm))
    expect(S, out, vals, jets, pmu, cd, [0, 3])
    for m, v in zip(cm, vals):
        S.same(m.data, v, "clusters left as they were")


def tag_errors(S, n):
    st = [S.choose("st%d" % i, [23, 22, 1]) for i in range(n)]
    P, pmu = record(S, st, [5] * n, [s == 1 for s in st])
    T = S.gcl.select.monte_carlo_tag
    fin = sum(s == 1 for s in st)
    hard = sum(s == 23 for s in st)
    one = S.gcl.MaskArray(S.arr([True] * fin, "<?"))
    S.raises(ValueError, lambda: T(P, []), "no clusters")
    S.raises(ValueError, lambda: T(P, [one], outgoing=False), "no partons asked for")
    S.raises(ValueError, lambda: T(P, [one], blacklist=[5], whitelist=[6]), "both lists")
    if hard > 1:
        S.raises(ValueError, lambda: T(P, [one]), "fewer clusters than partons")
    if hard:
        S.raises(ValueError, lambda: T(P, [S.gcl.MaskArray(S.arr([True] * (fin + 1), "<?"))] * n), "clusters over other particles")
        S.raises(IndexError, lambda: T(P, [one] * n, blacklist=[-5]), "nothing left")


def tasks(tier):
    q = tier == "quick"
    out = [("tag_errors", dict(n=3), 2)]
    for portions in ("default", "i", "o", "io"):
        out.append(("tag", dict(n=2, portions=portions, lists=None), 3))
        for lists in (("blacklist", [5]), ("whitelist", [-5, 24]), ("blacklist", [-5, 11]), ("whitelist", [5])):
            for sign in (None, True) if q else (None, False, True):
                if q and lists[1] == [5] and portions == "i":
                    continue
                out.append(("tag", dict(n=2 if q else 3, portions=portions, lists=lists, sign=sign), 3))
    out.append(("tag", dict(n=3, portions="io", lists=None), 6))
    if not q:
        out.append(("tag", dict(n=4, portions="io", lists=None), 20))
        out.append(("tag", dict(n=4, portions="o", lists=("blacklist", [-5])), 20))
    for k in (2, 3) if q else (2, 3, 4):
        for given in (True, False):
            out.append(("tag_clusters", dict(k=k, given=given), 4))
    return out

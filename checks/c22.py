"""C22 colour singlets of the hard process"""
from checks.common import *

FUNCTIONS = "select.color_singlets; data.StatusArray.hard_mask, in_range, ColorArray.__iter__, MaskArray.__and__, MaskGroup.data"
BOUNDS = "up to 4 leaves (5 in the thorough tier) holding 0 to 2 outgoing partons each; colour codes any int32 for one parton at a time and from {0, 1, 2, 3} for the others; statuses any of the outgoing, intermediate and shower codes"


def setup(S, n, members, codes, stat):
    """one leaf per entry of members: row numbers of the particles in its mask"""
    cols = []
    for i in range(n):
        c = codes[i]
        if c == "any":
            cols.append([S.int("c%d" % i, *I4, dtype="<i4"), S.int("a%d" % i, *I4, dtype="<i4")])
        elif c == "few":
            cols.append([S.int("c%d" % i, 0, 3, dtype="<i4"), S.int("a%d" % i, 0, 3, dtype="<i4")])
        else:
            cols.append(list(c))
    st = [S.choose("s%d" % i, [23, -23, 24, 22, 51]) if s == "?" else s for i, s in enumerate(stat)]
    names = ["u", "d~", "g:0", "W+", "b"][:len(members)]
    g = S.gcl.MaskGroup({k: S.gcl.MaskArray(S.arr([i in m for i in range(n)], "<?")) for k, m in zip(names, members)}, "or")
    return g, S.gcl.StatusArray(S.arr(st, "<i2")), S.gcl.ColorArray(S.arr(cols, "<i4").reshape(-1, 2)), names, st, cols


def expected(S, members, names, st, cols):
    """coloured outgoing partons, and those pairs and triples of them which are neutral"""
    parts = []
    for k, m in zip(names, members):
        for i in sorted(m):
            if abs(st[i]) == 23 and S.truth(S.any([cols[i][0] != 0, cols[i][1] != 0])):
                parts.append((k, cols[i]))
    out = []
    for r in (2, 3):
        for combo in itertools.combinations(parts, r):
            up, down = [c[1][0] for c in combo], [c[1][1] for c in combo]
            neutral = S.all([S.any([u == d for d in down]) for u in up] + [S.any([u == d for u in up]) for d in down])
            if S.truth(neutral):
                out.append(tuple(c[0] for c in combo))
    return parts, out


def singlets(S, n, members, codes, stat, call="kw"):
    S.hashes_like(range(8))
    g, st_, co_, names, st, cols = setup(S, n, members, codes, stat)
    f = S.gcl.select.color_singlets
    got = f(g, st_, co_) if call == "default" else f(g, st_, co_, False)
    parts, want = expected(S, members, names, st, cols)
    S.check(sorted(map(tuple, got)) == sorted(want), "the neutral pairs and triples: %s against %s" % (got, want))
    left = f(g, st_, co_, invert=True)
    inside = {k for t in want for k in t}
    lone = sorted({k for k, _ in parts} - inside)
    S.check(sorted(left) == [(k,) for k in lone], "coloured partons in no singlet: %s against %s" % (left, lone))
    S.same(st_._data, st, "statuses left as they were")
    S.same(co_._data, cols, "colours left as they were")
    for k, m in zip(names, members):
        S.same(g[k]._data, [i in m for i in range(n)], "leaves left as they were")


def tasks(tier):
    q = tier == "quick"
    out = []
    one = lambda n: [[i] for i in range(n)]
    out.append(("singlets", dict(n=0, members=[], codes=[], stat=[], call="default")))
    out.append(("singlets", dict(n=1, members=[[0]], codes=["any"], stat=["?"])))
    out.append(("singlets", dict(n=2, members=one(2), codes=["any", "any"], stat=[23, 23], call="default"), 3))
    out.append(("singlets", dict(n=2, members=one(2), codes=["any", [2, 0]], stat=["?", "?"]), 3))
    out.append(("singlets", dict(n=2, members=[[1], [0]], codes=["any", [0, 3]], stat=["?", 23]), 3))
    # q g qbar and the like
    out.append(("singlets", dict(n=3, members=one(3), codes=["any", [2, 1], [0, 2]], stat=[23, 23, -23]), 6))
    out.append(("singlets", dict(n=3, members=one(3), codes=[[1, 0], "any", [0, 2]], stat=[23, "?", 23]), 6))
    out.append(("singlets", dict(n=3, members=one(3), codes=[[5, 6], [6, 5], "any"], stat=[23, 23, "?"]), 6))
    out.append(("singlets", dict(n=3, members=[[2], [0], [1]], codes=["few", [1, 2], [0, 1]], stat=[-23, 23, "?"]), 6))
    # four leaves, colourless ones between them
    out.append(("singlets", dict(n=4, members=one(4), codes=[[1, 0], [0, 0], "any", [0, 2]], stat=[23, 23, 23, 23]), 8))
    out.append(("singlets", dict(n=4, members=one(4), codes=[[1, 0], [0, 1], [2, 0], "any"], stat=[23, 23, "?", 23]), 8))
    # leaves with shower particles, without outgoing partons or with several
    out.append(("singlets", dict(n=4, members=[[0, 3], [1], [2]], codes=["any", [7, 0], [0, 2], [0, 7]], stat=[23, "?", 23, 51]), 8))
    out.append(("singlets", dict(n=3, members=[[], [0], [1, 2]], codes=[[1, 0], "few", [0, 1]], stat=[23, 23, 52]), 6))
    out.append(("singlets", dict(n=4, members=[[3], [0, 1], [2]], codes=[[1, 0], [0, 2], "any", [3, 3]], stat=[23, 23, 23, "?"]), 8))
    if not q:
        out.append(("singlets", dict(n=3, members=one(3), codes=["any", "any", [0, 2]], stat=[23, 23, 23]), 60))
        out.append(("singlets", dict(n=3, members=one(3), codes=["few", "few", [0, 2]], stat=[23, 23, "?"]), 60))
        out.append(("singlets", dict(n=4, members=one(4), codes=[[1, 0], "any", "few", [0, 2]], stat=[23, 23, 23, 23]), 90))
        out.append(("singlets", dict(n=5, members=one(5), codes=[[1, 0], [0, 1], [2, 3], "any", [3, 2]], stat=[23, 23, 23, "?", 23]), 40))
    return out

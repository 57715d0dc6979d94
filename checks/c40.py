"""C40 printed event tables show each particle's own attributes"""
from mcpid.lookup import PdgRecords
from checks.common import *

FUNCTIONS = "data._table_repr; ParticleSet._table_list, _table_str, __str__, _repr_html_; Graphicle._table_str, __str__, _repr_html_"
BOUNDS = "0 to 3 particles and 59 to 63 (200 in the thorough tier), any subset of the attributes present (12 of them), any components; codes any of 3 for up to 2 particles, fixed ones otherwise; plain and HTML"
ASSUMES = "tabulate lays out the rows and headers it is given"
TABLE = PdgRecords()
HEAD = dict(pdg=["name"], pmu=["px", "py", "pz", "energy"], color=["color", "anticolor"], helicity=["helicity"], status=["status"], final=["final"], adj=["src", "dst"])
ORDER = ["pdg", "pmu", "color", "helicity", "status", "final", "adj"]


def name(code):
    return str(TABLE.properties([code], ["name"])["name"][0])


def printed(S, n, attrs, codes="fixed", html=False, free=None):
    """free: the rows with unknown components (all by default)"""
    kw, cells = {}, [[] for _ in range(n)]
    heads = []
    for a in ORDER:
        if a not in attrs:
            continue
        heads += HEAD[a]
        if a == "pdg":
            cs = [S.choose("c%d" % i, [1, -2, 21]) if codes == "any" else [1, -2, 21, 22, -11][i % 5] for i in range(n)]
            kw["pdg"] = S.arr(cs, "<i4")
            col = [[name(c)] for c in cs]
        else:
            fixed = lambda i, j: {"pmu": i + 0.25 * j, "final": (i * 7 + 3) % 5 < 2}.get(a, i * 3 + j)
            if free is None:
                col = rows(S, a, n, a)
                col = [c if isinstance(c, list) else [c] for c in col]
            else:
                col = []
                for i in range(n):
                    if i in free:
                        c = rows(S, a, 1, "%s_%d" % (a, i))[0]
                        col.append(c if isinstance(c, list) else [c])
                    else:
                        col.append([fixed(i, j) for j in range(COLS[a])])
            arr = S.arr(col if COLS[a] > 1 else [c[0] for c in col], DT[a])
            kw["edges" if a == "adj" else a] = arr.reshape(-1, COLS[a]) if COLS[a] > 1 else arr
        for i in range(n):
            cells[i] += col[i]
    # a record without attributes has no rows
    if not n:
        heads = []
    obj = S.gcl.Graphicle.from_numpy(**kw) if "adj" in attrs or "graph" in attrs else S.gcl.ParticleSet.from_numpy(**kw)
    tabs = S.tables()
    before = snapshot(S, *kw.values())
    text = obj._repr_html_() if html else str(obj)
    S.check(isinstance(text, str) and len(tabs) == 1, "one table")
    t = tabs[0]
    S.check(list(t["headers"]) == heads, "headers %s, expected %s" % (t["headers"], heads))
    S.check((t["fmt"] == "html") == html, "plain or HTML")
    want = list(range(n)) if n <= 60 else list(range(5)) + [None] + list(range(n - 5, n))
    S.check(len(t["rows"]) == len(want), "%d rows, expected %d" % (len(t["rows"]), len(want)))
    for got, i in zip(t["rows"], want):
        S.check(len(got) == len(heads), "a cell per header")
        if i is None:
            S.check(all(c is None and t["missing"] == "..." or isinstance(c, str) and c == "..." for c in got), "particles left out are marked")
            continue
        for c, w, h in zip(got, cells[i], heads):
            if isinstance(w, str):
                S.check(isinstance(c, str) and c == w, "name of particle %d" % i)
            else:
                S.check(not isinstance(c, str), "%s of particle %d is a number" % (h, i))
                S.same(c, w, "%s of particle %d" % (h, i))
    S.check("<table 0>" in text, "the table is shown")
    rest = text.replace("<table 0>", "")
    S.check(str(n) in rest and str(len(heads)) in rest, "numbers of particles and attributes: %s" % rest)
    unchanged(S, before, *kw.values())


def tasks(tier):
    q = tier == "quick"
    P = ["pdg", "pmu", "color", "helicity", "status", "final"]
    out = []
    sets = [P, P + ["adj"], P + ["graph"], ["pdg"], ["pmu", "adj"], ["color", "status"], ["adj"], ["final", "helicity", "graph"], ["pdg", "final", "adj"], ["helicity"], ["pmu"], ["pdg", "color"]]
    for k, s in enumerate(sets):
        for n in (0, 1, 2, 3):
            out.append(("printed", dict(n=n, attrs=s, html=bool((n + k) % 2))))
    for html in (False, True):
        out.append(("printed", dict(n=2, attrs=P, codes="any", html=html)))
    for n in (59, 60, 61, 62, 63) + (() if q else (64, 65, 70, 200)):
        out.append(("printed", dict(n=n, attrs=P + ["adj"], html=n % 2 == 0, free=[0, 4, 5, n - 6, n - 5, n - 1]), 3))
        out.append(("printed", dict(n=n, attrs=["pmu", "final"], html=n % 2 == 1, free=[1, 3, n - 4, n - 2]), 3))
        out.append(("printed", dict(n=n, attrs=["adj"], free=[2, 30, n - 3]), 3))
    return out

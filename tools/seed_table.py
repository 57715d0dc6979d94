"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
MISSED = {}  # id -> remark
rows = ["| change | property | what it needs in order to show | caught by its quick check |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), MISSED.get(i, "yes")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
if "SEEDTABLE\n" in s:
    s = s.replace("SEEDTABLE\n", a + b)
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])

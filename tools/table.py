"""Development aid: table.py CATCH_OUTPUT rewrites the table of planted changes in DESIGN.md."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(\S+)\s+(C\d\d) (caught|MISSED|ERROR)\s+(\d+)s", l)
        if m:
            k = re.search(r'"kind": "([^"]+)"', l)
            res.setdefault(m[1], {})[m[2]] = (m[3], k[1] if k else "")
rows = ["| change | property | needs | quick check |", "|---|---|---|---|"]
for i in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(HERE + "/seeded/%s/meta.json" % i))
    r = ["%s by %s%s" % (v[0], p, " (%s)" % v[1] if v[1] else "") for p, v in sorted(res.get(i, {}).items())]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), "; ".join(r) or "not run"))
p = HERE + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- table -->\n", "<!-- end of table -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])

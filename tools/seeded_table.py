"""Rewrites the table of planted bugs in DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append((m["property"], os.path.basename(os.path.dirname(d)), m["needs"]))
rows.sort()
t = "| check | planted bug | needs |\n|---|---|---|\n" + "".join("| %s | `%s` | %s |\n" % r for r in rows)
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: "<!-- seeded -->\n" + t + "<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)

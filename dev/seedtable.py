"""fill the planted-bug table of DESIGN.md from seeded/*/meta.json (caught-by column: dev/caught.json)"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(V + "/dev/caught.json")) if os.path.exists(V + "/dev/caught.json") else {}
rows = ["<!-- seeds -->", "| id | breaks | what | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = d.split("/")[-2]
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], c.get(i, m["property"])))
rows.append("<!-- /seeds -->")
p = V + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)

"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/bugnotes.txt."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = dict(l.rstrip("\n").split("|", 1) for l in open(os.path.join(root, "tools/bugnotes.txt")) if "|" in l)
rows = ["<!-- bugtable -->", "", "| planted bug | property whose quick check catches it | needs | first result |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| `%s` | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), notes.get(d, "caught")))
p = os.path.join(root, "DESIGN.md")
s = open(p).read().split("<!-- bugtable -->")[0].rstrip() + "\n\n"
open(p, "w").write(s + "\n".join(rows) + "\n")

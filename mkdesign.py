"""Writes the catch table at the end of DESIGN.md from catches.json and seeded/*/meta.json."""
import json
import os
HERE = os.path.dirname(os.path.abspath(__file__))
MARK = "<!-- catch table -->\n"
with open(HERE + "/DESIGN.md") as f:
    s = f.read().split(MARK)[0]
with open(HERE + "/catches.json") as f:
    C = json.load(f)
rows = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(HERE + "/seeded")):
    with open("%s/seeded/%s/meta.json" % (HERE, d)) as f:
        m = json.load(f)
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), C.get(d, "?")))
with open(HERE + "/DESIGN.md", "w") as f:
    f.write(s + MARK + "\n".join(rows) + "\n")

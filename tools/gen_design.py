"""DESIGN.md = tools/design_head.md + the repaired defects + the planted bugs (tools/caught.txt: run_seeded.py -a)."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(HERE + "/tools/design_head.md").read()]
for line in open(HERE + "/KNOWN_FINDINGS.txt"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m:
        out.append("* %s, `%s`: %s\n" % m.groups())
caught = {}
p = HERE + "/tools/caught.txt"
if os.path.exists(p):
    for line in open(p):
        w = line.split()
        caught[w[0]] = " ".join(w[2:])
out.append("""
## 6. Planted bugs

`seeded/<id>/`; each passes the repository's tests, and its demonstration fails with it.
"Caught by" lists every check that raises its own VIOLATION (quick tier, seed 1); the
property's own check was also run with seeds 2 and 3.

| id | property | what it breaks | needs | caught by |
|---|---|---|---|---|
""")
for d in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (HERE, d)))
    cell = lambda x: str(x).replace("|", "\\|").replace("\n", " ")
    out.append("| %s | %s | %s | %s | %s |\n" % (d, m["property"], cell(m["what_it_breaks"]), cell(m["needs"]), caught.get(d, m["property"])))
open(HERE + "/DESIGN.md", "w").write("".join(out))

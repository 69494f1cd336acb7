"""Rewrites the table at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
head = "|---|---|---|\n"
a = s.rindex(head) + len(head)
rows = []
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/")))
open(p, "w").write(s[:a] + "".join(rows))

"""Fills the table of planted bugs in DESIGN.md (run by hand)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(R, "tools/seeded_results.json")))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, '?')} |")
s = open(os.path.join(R, "DESIGN.md")).read()
a = s.index("## Planted bugs")
head = s[a:].split("\n\n")[:2]
open(os.path.join(R, "DESIGN.md"), "w").write(s[:a] + "\n\n".join(head) + "\n\n" + "\n".join(rows) + "\n")

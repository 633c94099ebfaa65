"""Prints the table of planted bugs for DESIGN.md (between the SEEDS markers) from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property (its quick check reports it) | needs | breaks |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"] + (" **missed**" if d.get("missed") else ""), d["needs"], d["what_it_breaks"]))
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"(<!--SEEDS-->\n).*(<!--/SEEDS-->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)

"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and missed_first.txt."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss = dict(l.strip().split(" ", 1) for l in open(V + "/tools/missed_first.txt") if l.strip())
rows = ["| planted bug | property | what is broken | needs | first |", "|---|---|---|---|---|"]
n = m = 0
for d in sorted(os.listdir(V + "/seeded"), key=lambda d: (d[1:3], d)):
    f = "%s/seeded/%s/meta.json" % (V, d)
    if not os.path.exists(f): continue
    j = json.load(open(f)); n += 1; m += d in miss
    rows.append("| %s | %s | %s | %s | %s |" % (d, j["property"], j["what_it_breaks"], j["needs"], "missed; then " + miss[d] if d in miss else "caught"))
rows.append("\n%d planted bugs; %d were missed at first and led to the generators named; all are caught now by the property's own check unless said otherwise." % (n, m))
p = V + "/DESIGN.md"; s = open(p).read()
s = re.sub(r"(?s)<!--table-->.*<!--end-->", lambda _: "<!--table-->\n" + "\n".join(rows) + "\n<!--end-->", s)
open(p, "w").write(s)
print(n, m)

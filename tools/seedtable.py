"""Rebuilds the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
t = open(p).read()
i = t.index("| ", t.index("## 7."))
head, rows = t[:i], t[i:].split("\n")
rest = [r for r in rows[2:] if not r.startswith("|")]
tab = []
for d in sorted(os.listdir(V + "/seeded"), key=lambda s: int(re.match(r"s(\d+)", s).group(1))):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    tab.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
open(p, "w").write(head + "\n".join(rows[:2] + tab + rest))

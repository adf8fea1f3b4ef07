"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + "/DESIGN.md").read()
L = ["| change | property | needs | what it breaks |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    L.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
i = s.index("| change | property |")
j = s.index("\n\n", i)
open(R + "/DESIGN.md", "w").write(s[:i] + "\n".join(L) + s[j:])

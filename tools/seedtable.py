"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (no check reads this)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it breaks | needs |", "|-----|-----------|----------------|-------|"]
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (root, d)))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
p = root + "/DESIGN.md"
s = open(p).read()
i = s.index("## Planted bugs")
j = s.index("\n## ", i + 5)
s = s[:i] + "## Planted bugs\n\nAll are caught by the check of the property they break (exit 1, this property's VIOLATION line).\n\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)

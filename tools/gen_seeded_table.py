"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | breaks and is caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| `{f.split('/')[-2]}`: {m['what_it_breaks']} | {m['property']}{m.get('also', '')} | {m['needs']} |")
p = root + "/DESIGN.md"
s = open(p).read()
b, e = "<!-- seeded -->\n", "<!-- /seeded -->\n"
s = s.replace("@@SEEDED@@\n", b + e)
i, j = s.index(b) + len(b), s.index(e)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])

"""Rewrites the table of case counts in DESIGN.md from `hpl-verif list`."""
import os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([root + "/harness/target/verif/hpl-verif", "list"], capture_output=True, text=True, check=True).stdout
n = lambda v: f"{int(v):,}".replace(",", " ")
rows = ["| property | generator | quick | thorough |", "|---|---|---|---|"]
for l in sorted(out.splitlines()):
    if not l.startswith("C"):
        continue
    for s, q, t in re.findall(r"([\w-]+)\((\d+)/(\d+)\)", l[3:]):
        rows.append(f"| {l[:3]} | `{s}` | {n(q)} | {n(t)} |")
p = root + "/DESIGN.md"
s = open(p).read()
b, e = "<!-- counts -->\n", "<!-- /counts -->\n"
i, j = s.index(b) + len(b), s.index(e)
open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])

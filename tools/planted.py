"""Rewrites the table of section 7 of DESIGN.md from seeded/*/meta.json."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(V + "/seeded/*/meta.json"):
    d = json.load(open(m)); rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
s = open(V + "/DESIGN.md").read()
i = s.index("| property and check |")
s = s[:i] + "| property and check | planted bug | what it needs |\n|---|---|---|\n" + "".join(f"| {a} | {b} | {c} |\n" for a, b, c in sorted(rows))
open(V + "/DESIGN.md", "w").write(s)

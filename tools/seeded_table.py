"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seeded_results.txt (lines: id result)."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(l.strip().split(" ", 1) for l in open(os.path.join(ROOT, "tools", "seeded_results.txt")) if l.strip())
rows = ["| id | property | what it breaks | result |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {res.get(d, '?')} |")
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"<!-- seeded table -->.*<!-- end -->", lambda _: "<!-- seeded table -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)

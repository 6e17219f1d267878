"""Write the table of planted bugs into DESIGN.md (between the markers)."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"s02", "s03", "s11", "s34", "s38", "s42", "s47", "s77", "s81", "s82", "s83", "s85", "s100", "s101", "s102", "s105", "s106", "s108", "s120", "s121", "s124", "s126", "s127", "s131", "s141", "s151"}
OPEN = {"s161", "s163"}      # not caught
rows = []
for f in glob.glob(ROOT + "/seeded/*/meta.json"):
    d = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    n = d.split("-")[0]
    rows.append((int(re.sub(r"\D", "", n)), f"| {d} | {m['property']} | {m['what_it_breaks']} | {'no' if n in OPEN else 'after strengthening' if n in MISSED else 'at once'} |"))
table = "| Bug | Caught by | What it breaks | Caught |\n|---|---|---|---|\n" + "\n".join(r for _, r in sorted(rows)) + "\n"
p = ROOT + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- planted bugs -->\n", "<!-- end -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + table + s[j:])

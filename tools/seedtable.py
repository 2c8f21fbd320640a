# Rewrites the table of planted bugs at the end of DESIGN.md from seeded/ and
# tools/caught.txt (lines "ID PROP exit", written by tryseed.sh).
import json, os
base = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(base + "/tools/caught.txt"):
    a = l.split()
    if len(a) == 3: res[a[0]] = a[2]
rows = []
for id in os.listdir(base + "/seeded"):
    m = json.load(open(f"{base}/seeded/{id}/meta.json"))
    rows.append((m["property"], id, m["what_it_breaks"], res.get(id, "?")))
rows.sort()
s = open(base + "/DESIGN.md").read()
mark = "| property | planted bug |"
if mark in s: s = s[:s.index(mark)]
s = s.rstrip() + "\n\n" + mark + " what it breaks | caught by the property's check |\n|---|---|---|---|\n"
for p, id, w, r in rows:
    s += f"| {p} | {id} | {w} | {'yes' if r == '1' else 'no' if r == '0' else '?'} |\n"
open(base + "/DESIGN.md", "w").write(s)

"""DESIGN.md from tools/DESIGN.in.md, filling in the not-applicable list and the table of planted bugs."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(os.path.join(ROOT, "tools", "DESIGN.in.md")).read()
m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
na = [f"- **{x['property']}**: {x['reason']}" for x in m["not_applicable"] if x["property"] not in ("C28", "C29")]
rows = ["| planted bug | property, caught by | what it breaks | needs |", "|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    j = json.load(open(os.path.join(sd, d, "meta.json")))
    rows.append(f"| {d} | {j['property']} | {j['what_it_breaks']} | {j['needs']} |")
s = s.replace("@@NA@@\n", "\n".join(na) + ("\n" if na else "")).replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)

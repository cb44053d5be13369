"""Write MANIFEST.json from the implemented checks (sa/checks/cNN.py) and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of the syntax trees (gated value numbering in an algebraic normal form)"
TECH = {}
exec(open(os.path.join(ROOT, "tools", "techniques.py")).read(), TECH)
T, NA = TECH["T"], TECH["NA"]
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(ROOT, "sa", "checks", i.lower() + ".py")) and i in T:
        checks.append({"property": i, "quick_cmd": f"python3 -m sa.run {i} --tier quick",
                       "thorough_cmd": f"python3 -m sa.run {i} --tier thorough",
                       "technique": T[i][0], "level": "other", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 -m sa.selftest", "checks": checks, "not_applicable": na}
if "HOOKS" in TECH:
    m["hooks"] = TECH["HOOKS"]
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")

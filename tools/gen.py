"""writes properties.jsonl and MANIFEST.json from the table in props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": [], "not_applicable": [], "notes": NOTES}
for p in PROPS:
    cmd = "python3 engine/%s.py" % p["id"].lower()
    m["checks"].append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " --thorough", "technique": p["technique"],
                        "level": p.get("level", "other"), "level_note": p["level_note"]})
for p in NA:
    m["not_applicable"].append({"property": p["id"], "reason": p["reason"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

# DESIGN.md from DESIGN.in.md
t = open(os.path.join(V, "tools/DESIGN.in.md")).read()
ps = ""
for p in PROPS:
    ps += "### %s %s\n\n%s\n\n*Decided by* %s (`%s`). %s\n\n*Quantifies over* %s. *Beyond tests:* %s\n\n" % (
        p["id"], p["title"], p["statement"], p["technique"], "engine/%s.py" % p["id"].lower(), p["level_note"], p["quantifier"]["text"], p["why_tests_cant"])
    if p.get("cost"):
        ps += "*Cost* %s\n\n" % p["cost"]
na = "".join("* **%s %s**: %s\n" % (p["id"], p["title"], p["reason"]) for p in NA) or "(none yet)\n"
ss = ""
S = os.path.join(V, "seeded")
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    j = json.load(open(os.path.join(S, d, "meta.json")))
    ss += "* `%s` (%s): %s Needs: %s.\n" % (d, j.get("caught_by", "caught by " + j["property"]), j["what_it_breaks"], j["needs"])
open(os.path.join(V, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", ps.strip()).replace("@@NA@@", na.strip()).replace("@@SEEDS@@", ss.strip()))

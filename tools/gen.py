#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from lib/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props, checks, na
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for i in list(props.P.values()) + na.NA:
        f.write(json.dumps({"id": i["id"], "title": i["title"], "statement": i["statement"], "quantifier": {"over": i["over"], "text": i["text"]}, "why_tests_cant": i["why"],
                            "anchors": {"files": i["files"], "mechanism": [{"name": a, "where": b} for a, b in i["mech"]]}}) + "\n")
        assert len(i["title"]) <= 80, i["title"]
cs = []
for k, v in sorted(props.P.items()):
    assert k in checks.CHECKS, k
    cs.append({"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + k, "technique": v["technique"], "level": "other", "level_note": v["note"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": cs, "not_applicable": [{"property": i["id"], "reason": i["reason"]} for i in na.NA],
     "notes": "All checks are static: see DESIGN.md. known_findings.txt lists the genuine defects that were repaired (fixed:) or recorded (known:)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "checks;", len(na.NA), "not applicable")

# the table of planted bugs in DESIGN.md
import re
S = os.path.join(V, "seeded")
rows = "| id | property | what it breaks | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows += "| `%s` | %s | %s (needs: %s) | %s |\n" % (d, m["property"], m["what_it_breaks"], m["needs"], m["property"])
D = os.path.join(V, "DESIGN.md")
text = open(D).read()
new = re.sub(r"(?s)<!-- table -->\n.*?<!-- /table -->", lambda _: "<!-- table -->\n" + rows + "<!-- /table -->", text)
if new != text and os.path.isdir(S):
    open(D, "w").write(new)

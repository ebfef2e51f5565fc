"""Write properties.jsonl and MANIFEST.json from sa/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "sa"))
import props
import manifest_notes as mn
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props.P + mn.NA_PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": p["quantifier"], "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}
        f.write(json.dumps(d) + "\n")
checks = []
for p in props.P:
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": p["technique"] or mn.TECHNIQUE, "level": p["level"], "level_note": p["note"] or mn.NOTE})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in mn.NA_PROPS], "notes": mn.NOTES}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

"""writes /verif/MANIFEST.json from props.py (development aid)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": [],
     "notes": "one runner (engine/check.py); no hooks in /repo, so there is no guard. See DESIGN.md."}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": p["level"], "level_note": p["level_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": props.NA.get(i, "not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

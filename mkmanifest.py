"""Regenerates MANIFEST.json from the rule modules present in jbk/rules."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open("not_applicable.json")) if os.path.exists("not_applicable.json") else {}
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists("jbk/rules/%s.py" % p.lower()) and p not in NA:
        m = importlib.import_module("jbk.rules." + p.lower())
        checks.append({"property": p, "quick_cmd": "./check.sh %s quick" % p, "thorough_cmd": "./check.sh %s thorough" % p,
                       "technique": "static analysis: " + m.TECHNIQUE, "level": m.LEVEL,
                       "level_note": getattr(m, "NOTE", "") or (m.__doc__.strip() + " Assumes: " + "; ".join(m.ASSUMPTIONS) + ".")})
    else:
        na.append({"property": p, "reason": NA.get(p, "not claimed yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks re-extract MIR facts from /repo's working tree on every run; see DESIGN.md."}, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")

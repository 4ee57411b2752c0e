import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import checks
TECH = "TLA+ specification checked with TLC; behaviours printed by TLC replayed into the real code and compared"
notes = json.load(open(ROOT + "/tools/levels.json"))
props = [json.loads(l)["id"] for l in open(ROOT + "/properties.jsonl")]
out = {"version": 1, "setup_cmd": "python3 setup.py", "checks": [], "not_applicable": []}
for p in props:
    if hasattr(checks, p):
        n = notes.get(p, {})
        out["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                              "technique": n.get("technique", TECH), "level": "model_checking",
                              "level_note": n.get("note", "Exhaustive within the bounds of the model, pseudo-random (VERIF_SEED) beyond; every behaviour is replayed into the code built from /repo's working tree.")})
    else:
        out["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(out, open(ROOT + "/MANIFEST.json", "w"), indent=1)

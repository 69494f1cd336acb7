"""Writes MANIFEST.json and checks known_findings.json from the registered checks.   python3 tools/mkmanifest.py"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
notes = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "sim", "checks", i.lower() + ".py")) and i in notes["level_note"]:
        checks.append({"property": i, "quick_cmd": "bash run.sh %s quick" % i, "thorough_cmd": "bash run.sh %s thorough" % i,
                       "technique": "deterministic simulation with fault injection: " + notes["technique"][i], "level": "exploration",
                       "level_note": notes["level_note"][i]})
    else:
        na.append({"property": i, "reason": notes["not_applicable"].get(i, "check under construction")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")

"""Write MANIFEST.json for the properties that have a module in vt/props."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(here, "tools", "notes.json")))
checks = []
for p in sorted(NOTES):
    if not os.path.exists(os.path.join(here, "vt", "props", p.lower() + ".py")):
        continue
    n = NOTES[p]
    checks.append({
        "property": p,
        "quick_cmd": f"./check.sh {p} quick",
        "thorough_cmd": f"./check.sh {p} thorough",
        "technique": n["technique"],
        "level": "model_checking",
        "level_note": n["note"]})
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
done = {c["property"] for c in checks}
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet (work in progress)"}
                        for i in ids if i not in done],
     "notes": "TLA+ specification in spec/, checked and judged by TLC; drivers in vt/. "
              "No hooks in /repo are needed: everything is observed through the public API."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")

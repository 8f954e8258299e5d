"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif not os.path.exists(os.path.join(V, "pbt", "props", i.lower() + ".py")):
        na.append({"property": i, "reason": "check not built yet"})
    else:
        t, n = NOTES.get(i, ["property-based testing (Hypothesis) against a reference model", "Random search with shrinking; no proof of absence. Trusts NumPy/SciPy and the reference in the check."])
        checks.append({
            "property": i,
            "quick_cmd": f"bin/check {i} --tier quick",
            "thorough_cmd": f"bin/check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t, "level": "exploration", "level_note": n,
        })
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "Property-based testing with Hypothesis; the code under test is imported from /repo's working tree, nothing is built."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")

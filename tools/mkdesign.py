"""Writes DESIGN.md (from tools/design/*.md, properties.jsonl, the evidence rules and seeded/) and tools/level_notes.json."""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(HERE, "design"))
from props import P  # noqa: E402


def rule(i):
    s = open(os.path.join(ROOT, "pbt", "props", i.lower() + ".py")).read()
    r = re.search(r"RULE = \((.*?)\)\nASS", s, re.S)[1]
    a = re.search(r"ASSUMPTIONS = \[(.*?)\]\n", s, re.S)[1]
    join = lambda t: "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', t))
    parts = []
    for name, rest in re.findall(r'\bPart\("([^"]+)"(.*)', s):
        quick = re.search(r"(?:quick=|, )(\d+)", rest)[1]
        large = re.search(r"large=(\d+)", rest)
        parts.append((name, quick + (f", and {large[1]} on tens of vertices" if large else "")))
    return join(r), "; ".join(re.findall(r'"((?:[^"\\]|\\.)*)"', a)), parts


findings = json.load(open(os.path.join(ROOT, "known_findings.json")))
out = [open(os.path.join(HERE, "design", "head.md")).read().replace("{nfixed}", str(len(findings["fixed"])))]
seeds = {}
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
notes = {}
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    r, a, parts = rule(i)
    tech, spec = P[i]
    out.append(f"\n### {i} {p['title']}\n\n{spec}\n\n*Cases.* {r}\n\n*Assumptions.* {a}.\n\n*Parts (cases in the quick tier).* " + ", ".join(f"{n} ({k})" for n, k in parts) + ".\n")
    fx = [x.split(" ", 2)[2] for x in findings["fixed"] if f"property={i} " in x]
    if fx:
        out.append("\n*Repaired.* " + "; ".join(f"{x.split(' ', 1)[1]} ({x.split(' ', 1)[0]})" for x in fx) + ".\n")
    kn = [x["what"] for x in findings["known"] if x["property"] == i]
    if kn:
        out.append("\n*Known findings (not repaired).* " + "; ".join(kn) + ".\n")
    if i in seeds:
        out.append("\n*Planted bugs.* " + "; ".join(f"`{n}`: {m['what_it_breaks']} (needs {m['needs']})" for n, m in seeds[i]) + ".\n")
    notes[i] = ["property-based testing (Hypothesis): " + tech, "Random search with shrinking: no proof of absence beyond the sizes drawn. Trusts NumPy, SciPy and the oracle of the check. Assumes: " + a + "."]
out.append("\n" + open(os.path.join(HERE, "design", "tail.md")).read())
open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))
json.dump(notes, open(os.path.join(HERE, "level_notes.json"), "w"), indent=1, ensure_ascii=False)

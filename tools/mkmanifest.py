#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness names."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = []
for f in glob.glob(root + "/harness/zzverif/h*/*.go"):
    names += re.findall(r"^func ((?:C\d\d)+_\w+)\(", open(f).read(), re.M)
have = {}
for n in names:
    for p in re.findall(r"C\d\d", re.match(r"(C\d\d)+", n).group(0)):
        have.setdefault(p, []).append(n)
checks, na = [], []
for l in open(root + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p in have:
        checks.append({
            "property": p,
            "quick_cmd": f"./check.sh {p}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
            "technique": "symbolic execution of the Go SSA of /repo's current source; path conditions and assertions decided by an SMT solver (cvc5, z3 fallback); counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for every value of the symbolic inputs within the bounds stated per harness in the evidence file (sizes, element counts, history lengths); nothing is claimed beyond them. Trusted: go/ssa, the gosym executor with its models of runtime, reflect, strconv, fmt and sync (sampled paths are re-run natively and compared), and the solver.",
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./check.sh setup", "checks": checks, "not_applicable": na}, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", [x["property"] for x in na], "without")

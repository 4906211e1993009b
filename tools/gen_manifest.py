"""Writes /verif/MANIFEST.json from the facets that exist."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
facets = {}
for l in subprocess.run(["python3", os.path.join(ROOT, "run.py"), "list"], capture_output=True, text=True, check=True).stdout.splitlines():
    p, f, *_ = l.split()
    facets.setdefault(p, []).append(f)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in facets:
        checks.append(dict(property=i, quick_cmd=f"python3 run.py check {i} --tier quick", thorough_cmd=f"python3 run.py check {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique="property-based testing (Hypothesis generators, shrinking) against " + {
              "C": "a calendar reference model", "I": "a per-column reference model and metamorphic relations", "M": "reference formulas and metamorphic laws",
              "S": "quadrature round trips and geometric invariants", "G": "geodesic reference and finite-difference model", "F": "a DFT reference model and algebraic laws",
              "T": "reference statistics and linear-algebra oracles", "X": "differential and history-based oracles", "U": "a reference lookup with decoy variables"}[i[0]],
            level="exploration", level_note="Generated-input search: finds counterexamples, proves no absence. Facets: " + ", ".join(facets[i]) +
            ". Trusts numpy/xarray/cftime as used by the oracle; domains and tolerances are in DESIGN.md."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
         notes="All checks: python3 run.py check ID --tier quick|thorough [--seed N]; replays: python3 run.py replay FILE. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in na], "not")

"""Writes MANIFEST.json from the checks that exist under pbt/checks."""
import json, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TECH = {}
NOTE = ("Generated-input search against an explicit oracle: no violation found on the cases "
        "counted in the evidence file; establishes no absence outside them. Trusts NumPy/SciPy "
        "float64 references, JAX itself and Hypothesis (vendored).")
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
  i = p["id"]
  if os.path.exists(f"pbt/checks/{i.lower()}.py"):
    checks.append(dict(property=i, quick_cmd=f"bash check.sh {i} quick",
                       thorough_cmd=f"bash check.sh {i} thorough",
                       evidence_file=f"evidence/{i}.json",
                       technique=TECH.get(i, "property-based testing (Hypothesis) with reference-model, certificate and metamorphic oracles"),
                       level="exploration", level_note=NOTE))
  else:
    na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na),
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na], "not claimed")

"""Regenerates MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        mod = importlib.import_module("checks." + i.lower())
        checks.append({
            "property": i, "quick_cmd": f"./run_check.sh {i} quick", "thorough_cmd": f"./run_check.sh {i} thorough",
            "technique": getattr(mod, "TECHNIQUE", "runtime monitors on the real code, differential against an independent oracle"),
            "level": "exploration",
            "level_note": "Holds on every execution observed (counts in the evidence file). Workload: " + mod.RULE + ". Trusts: " + "; ".join(mod.ASSUMPTIONS) + "; NumPy/SciPy/PySCF/Qiskit as reference arithmetic.",
        })
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the monitors observe the public API and the objects it returns. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "pending")

"""Writes /verif/MANIFEST.json from checks.py and NOT_APPLICABLE."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
TECH = "symbolic execution of the real Python source with z3 deciding every path; counterexamples replayed on the real code"
NOTE = ("Every path of the real code under the harness within the stated bounds is decided by z3; each path is also re-run "
        "concretely on the unmodified code. Trusts z3, the engine's models of CPython builtins (cross-checked by that re-run) "
        "and the independent oracle in /verif/harness.")
m = {"version": 1, "setup_cmd": "python3-vt /verif/tools/selfcheck.py",
     "checks": [], "not_applicable": [],
     "notes": "See DESIGN.md. No hooks: the engine instruments a copy of the source in memory."}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3-vt /verif/run.py %s" % p,
                            "thorough_cmd": "python3-vt /verif/run.py %s --thorough" % p,
                            "technique": TECH, "level": "model_checking",
                            "level_note": NOTE + (" Bounds: " + c["bounds"] if c.get("bounds") else "")})
    else:
        m["not_applicable"].append({"property": p, "reason": checks.NOT_APPLICABLE.get(p, "check not built yet")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")

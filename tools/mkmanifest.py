"""write MANIFEST.json from the properties and what is built"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import contracts
from contracts import meta
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    rt = os.path.exists(os.path.join(HERE, "rt", pid.lower() + ".py"))
    fs = contracts.all_names(pid)
    if not rt and not fs:
        na.append(dict(property=pid, reason=meta.NA.get(pid, "no contract built yet")))
        continue
    checks.append(dict(
        property=pid,
        quick_cmd=f"python3-vt check.py {pid} --tier quick",
        thorough_cmd=f"python3-vt check.py {pid} --tier thorough",
        technique=("contracts on the real code, every obligation discharged by z3/cvc5 from the current source; run-time contract evaluation as the bounded stand-in for the rest"
                   if fs else "contracts on the real code evaluated at run time (bounded stand-in)"),
        level=meta.LEVEL.get(pid, "proof" if fs else "exploration"),
        level_note=meta.note(pid, fs)))
json.dump(dict(version=1, setup_cmd="python3-vt check.py --setup", checks=checks, not_applicable=na,
               notes="All commands run from /verif. The verifier is /verif/pyvc; contracts are in /verif/contracts; run-time contracts in /verif/rt."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

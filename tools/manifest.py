"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
checks, na = [], []
from ocs import checks as C
NOTE = ("The property held on every execution observed: the real code is run on generated models and judged by an "
        "independent oracle after every simulation event. Assumes the monitor's reading of public state (logbooks, levels, "
        "resource users, positions) and simpy itself; says nothing about models outside the generated families.")
for p in props:
    try:
        c = C.load(p["id"])
    except ModuleNotFoundError:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "its check is still being built")))
        continue
    checks.append(dict(
        property=p["id"],
        quick_cmd=f"python3 check.py {p['id']} --tier quick",
        thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
        technique=c.technique, level="exploration",
        level_note=getattr(c, "level_note", None) or NOTE,
    ))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the monitors subclass simpy's environment and read public state. Repairs are listed in KNOWN_FINDINGS.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

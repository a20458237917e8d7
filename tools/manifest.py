#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from properties.jsonl and checks/."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/bin", V + "/checks"]
NA = {}
try:
    from not_applicable import NA
except ImportError:
    pass
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists(f"{V}/checks/{p.lower()}.py"):
        c = importlib.import_module(p.lower()).CHECK
        assert c.id == p, (c.id, p)
        checks.append(dict(property=p, quick_cmd=f"python3 bin/check.py {p} quick", thorough_cmd=f"python3 bin/check.py {p} thorough",
            technique=c.technique, level="model_checking", level_note=c.level_note, evidence_file=f"evidence/{p}.json"))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check has been built for it yet")))
json.dump(dict(version=1, setup_cmd="python3 bin/check.py setup",
    hooks=dict(guard="CLINK_VERIF_HOOKS", enable="harness/cmake/CMakeLists.txt defines it for everything it builds", source_commits=["aa3a767"]),
    checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

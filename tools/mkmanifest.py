"""Writes MANIFEST.json from tools/registry.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=guarded"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "PLUTO_VERIF", "enable": "the checks compile /repo's library sources with -DPLUTO_VERIF (tools/buildlib.py)",
               "source_commits": hooks},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i,
                            "thorough_cmd": "python3 check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i,
                            "technique": c.get("technique", "explicit-state exhaustive enumeration of bounded inputs run on the real library, checked against a point-enumeration reference"),
                            "level": "model_checking",
                            "level_note": c.get("level_note", "Exhaustive within the stated bounds on the real code; nothing is claimed beyond them. " + " ".join(c["assumptions"]))})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")

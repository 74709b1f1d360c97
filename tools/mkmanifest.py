#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the registry of checks and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "props"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = registry.NOT_APPLICABLE
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        note = registry.NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": note[0], "level": "model_checking", "level_note": note[1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet covered by a check")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "VITAL_VERIF_HOOKS", "enable": "no hooks are needed; the checks build /repo unchanged", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")

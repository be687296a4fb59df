#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 lib/setup.py",
         checks=[dict(property=k, quick_cmd="python3 check.py %s --tier quick" % k, thorough_cmd="python3 check.py %s --tier thorough" % k,
                      technique=CHECKS[k]["technique"], level=CHECKS[k].get("level", "model_checking"), level_note=CHECKS[k]["note"]) for k in props if k in CHECKS],
         not_applicable=[dict(property=k, reason=NOT_APPLICABLE.get(k, "No check yet.")) for k in props if k not in CHECKS],
         notes="See DESIGN.md. All checks build the code from /repo's working tree with their own build (lib/xbuild.py); no hooks in /repo are needed.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not claimed")

"""Writes MANIFEST.json from checks.py and properties.jsonl (python3 tools/manifest.py)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from checks import CHECKS, NOT_APPLICABLE
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % i,
                           technique="property-based testing: " + c["technique"], level="exploration", level_note=c["note"]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "its check is not built yet")) for i in ids if i not in CHECKS]
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na,
         notes="Every check compiles /repo/src from the current tree; no hooks are needed in /repo. A replay file is re-run with: python3 run.py <id> --replay <file>.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")

"""Writes MANIFEST.json from the registry."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
sys.dont_write_bytecode = True
from registry import CHECKS
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                           technique=c["technique"], level=c["level"], level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "the check of this property is not built yet")))
m = dict(version=1, setup_cmd="python3 tools/build.py", checks=checks, not_applicable=na,
         hooks=dict(guard="VRS_VERIFICATION_CHUNK_UNIT", enable="-DVRS_VERIFICATION_CHUNK_UNIT=1024: chunk sizes are multiples of 1 KB rather than 1 MB, so that small files have chunks", source_commits=["5bb86d8"]),
         notes="Harnesses are built out of tree from /repo's working tree (build/, ignored by git). All else is done without hooks: the machinery interposes library functions at link time.")
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)

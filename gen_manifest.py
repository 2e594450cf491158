#!/usr/bin/env python3
"""write MANIFEST.json from props/claims.py"""
import json
import os

from props import claims

here = os.path.dirname(os.path.abspath(__file__))
checks = []
for pid in sorted(claims.CLAIMS):
    tech, note = claims.CLAIMS[pid]
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid,
                       thorough_cmd="python3 check.py %s --tier thorough" % pid, technique=tech, level="other",
                       level_note=note))
na = [dict(property=p, reason=r) for p, r in sorted(claims.NOT_APPLICABLE.items())]
m = dict(version=1, setup_cmd="python3 -m compileall -q sa props", checks=checks, not_applicable=na)
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

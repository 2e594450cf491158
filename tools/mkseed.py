#!/usr/bin/env python3
"""mkseed.py SPEC: SPEC is a python file defining ID, PROP, EDITS=[(file, old, new)], DEMO (python source), NEEDS, BREAKS.
Writes seeded/ID (patch against /repo's HEAD); /repo is left as it was."""
import json, os, shutil, subprocess, sys, tempfile
for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    for seed in ns["SEEDS"]:
        d = "/verif/seeded/" + seed["id"]
        os.makedirs(d, exist_ok=True)
        copy = tempfile.mkdtemp()
        subprocess.check_call(["git", "clone", "-q", "/repo", copy + "/r"])
        try:
            for f, old, new in seed["edits"]:
                p = copy + "/r/lib/acltk/" + f
                s = open(p).read()
                assert s.count(old) == 1, (seed["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            patch = subprocess.check_output(["git", "-C", copy + "/r", "diff"]).decode()
        finally:
            shutil.rmtree(copy)
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo.py", "w").write(seed["demo"].lstrip())
        open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH=/repo/lib PYTHONDONTWRITEBYTECODE=1 timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=seed["prop"], needs=seed["needs"], what_it_breaks=seed["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print(seed["id"])

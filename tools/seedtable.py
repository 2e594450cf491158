#!/usr/bin/env python3
"""the table of planted bugs for DESIGN.md"""
import json
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | caught by | breaks |\n|---|---|---|")
for n in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", n, "meta.json")))
    print("| %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/")))

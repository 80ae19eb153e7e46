#!/usr/bin/env python3
"""writes MANIFEST.json from the registry's claims (run by hand; the result is committed)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
import claims
m = dict(version=1, setup_cmd="python3 setup.py", checks=[], not_applicable=[dict(property=p, reason=r) for p, r in claims.NA], notes=claims.NOTES)
for p, (tech, level, note) in claims.CLAIMS.items():
    m["checks"].append(dict(property=p, quick_cmd="./check.py %s --tier quick" % p, thorough_cmd="./check.py %s --tier thorough" % p, technique=tech, level=level, level_note=note))
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)

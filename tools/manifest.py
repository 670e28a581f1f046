#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS, NOT_APPLICABLE
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[
    dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=P["technique"], level=P.get("level", "proof"), level_note=P["note"])
    for i, P in sorted(PROPS.items())], not_applicable=[dict(property=i, reason=r) for i, r in sorted(NOT_APPLICABLE.items()) if i not in PROPS])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

#!/usr/bin/env python3
"""append a fixed entry: kf.py Q04 HASH text"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
d = json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}
d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], sys.argv[2], sys.argv[3]))
json.dump(d, open(p, "w"), indent=1)
open(p, "a").write("\n")

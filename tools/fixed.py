#!/usr/bin/env python3
"""fixed.py <property> <what failed> [commit]: record a repair in known_findings.json."""
import json, subprocess, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "known_findings.json"); d = json.load(open(p))
h = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h", sys.argv[3] if len(sys.argv) > 3 else "HEAD"]).decode().strip()
d["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]))
json.dump(d, open(p, "w"), indent=1)

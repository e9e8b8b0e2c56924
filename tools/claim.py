#!/usr/bin/env python3
"""claim.py CXX 'note' : register a property's check and regenerate the manifest"""
import json, sys, os, subprocess
p = os.path.join(os.path.dirname(__file__), "claimed.json")
d = json.load(open(p))
d[sys.argv[1]] = {"note": sys.argv[2]}
json.dump(dict(sorted(d.items())), open(p, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(os.path.dirname(__file__), "gen.py")])

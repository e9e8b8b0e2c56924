#!/usr/bin/env python3
"""dbg.py CXX [target]: run the targets in process; every failed obligation with its path."""
import sys, os
sys.path.insert(0, '/verif')
import pyvc.engine as E
from pyvc.lib import base_spec
import importlib
m = importlib.import_module("specs." + sys.argv[1].lower())
for t in m.P.targets:
    if len(sys.argv) > 2 and sys.argv[2] not in t["name"]: continue
    e = E.Engine(os.environ.get("PYVC_REPO", '/repo'), timeout_ms=10000)
    sp = t["spec"]() if callable(t["spec"]) else (t["spec"] or base_spec())
    r = e.explore(t["name"], t["run"], sp)
    print(t["name"], r["paths"], "paths")
    for (_, name), o in sorted(r["obligations"].items()):
        for f in o["failed"][:2]:
            print("FAILED", name, f["result"])
            for x in f["trace"][-int(os.environ.get("TL", "25")):]: print("     ", str(x)[:160])
            print("  goal", f["goal"][:400])

#!/usr/bin/env python3
"""forks.py CXX target: where the paths of a target fork."""
import sys, time, traceback, collections
sys.path.insert(0, '/verif')
import pyvc.engine as E
from pyvc.lib import base_spec
import importlib
m = importlib.import_module("specs." + sys.argv[1].lower())
acc = collections.Counter()
class WL(list):
    def append(self, x):
        st = [f for f in traceback.extract_stack() if "/pyvc/" in f.filename or "/specs/" in f.filename][:-1]
        acc[" < ".join("%s:%d" % (f.name, f.lineno) for f in reversed(st[-9:]) if f.name not in ("decide",))] += 1
        list.append(self, x)
for t in m.P.targets:
    if len(sys.argv) > 2 and sys.argv[2] not in t["name"]: continue
    e = E.Engine('/repo', timeout_ms=10000)
    sp = t["spec"]() if callable(t["spec"]) else (t["spec"] or base_spec())
    oset = E.Engine.__setattr__
    def sa(self, k, v):
        if k == "worklist" and not isinstance(v, WL):
            v = WL(v)
        oset(self, k, v)
    E.Engine.__setattr__ = sa
    t0 = time.time()
    e.explore(t["name"], t["run"], sp)
    print(t["name"], round(time.time() - t0, 1), "s", e.stats.queries)
for k, v in acc.most_common(25): print(v, k)

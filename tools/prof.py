#!/usr/bin/env python3
"""prof.py CXX [target]: slowest solver queries, by caller."""
import sys, time, traceback, collections
sys.path.insert(0, '/verif')
import pyvc.engine as E
from pyvc.lib import base_spec
import importlib
m = importlib.import_module("specs." + sys.argv[1].lower())
acc = collections.Counter(); cnt = collections.Counter()
oq = E.Engine.query
def q(self, x, **kw):
    t = time.time(); r = oq(self, x, **kw); d = time.time() - t
    st = [f for f in traceback.extract_stack() if "/pyvc/" in f.filename or "/specs/" in f.filename][-6:-1]
    k = " < ".join("%s:%d" % (f.name, f.lineno) for f in reversed(st[-4:])) + " | " + str(x)[:100].replace("\n", " ")
    acc[k] += d; cnt[k] += 1
    return r
E.Engine.query = q
for t in m.P.targets:
    if len(sys.argv) > 2 and sys.argv[2] not in t["name"]: continue
    e = E.Engine('/repo', timeout_ms=10000)
    sp = t["spec"]() if callable(t["spec"]) else (t["spec"] or base_spec())
    t0 = time.time()
    e.explore(t["name"], t["run"], sp)
    print(t["name"], round(time.time() - t0, 1), "s", e.stats.queries)
for k, v in acc.most_common(25): print("%.1f %d %s" % (v, cnt[k], k))

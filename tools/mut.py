#!/usr/bin/env python3
"""tools/mut.py CXX file 'old' 'new' ['old2' 'new2' ...]: run a check on a mutated scratch copy."""
import subprocess, sys, os, shutil, tempfile
pid, f, subs = sys.argv[1], sys.argv[2], sys.argv[3:]
d = tempfile.mkdtemp(prefix="mut_")
r = os.path.join(d, "repo")
subprocess.run(["cp", "-a", "/repo", r])
p = os.path.join(r, "pieshell", f)
s = open(p).read()
for a, b in zip(subs[::2], subs[1::2]):
    a, b = a.replace("\\n", "\n"), b.replace("\\n", "\n")
    assert s.count(a) >= 1, "not found: %r" % a
    s = s.replace(a, b, 1)
open(p, "w").write(s)
env = dict(os.environ, PYVC_REPO=r, PYVC_EVIDENCE=os.path.join(d, "ev"))
x = subprocess.run(["python3-vt", "/verif/check.py", pid] , env=env, capture_output=True, text=True)
print(x.stdout[-1500:], x.stderr[-500:])
if os.environ.get("TESTS"):
    t = subprocess.run(["/opt/venv/bin/python", "-m", "nose2"], cwd=r, capture_output=True, text=True)
    print(t.stderr[-300:])
shutil.rmtree(d)

#!/usr/bin/env python3
"""Make and confirm a planted bug.
usage: seed.py ID   -- reads /verif/seeded/ID/{make.json? no: patch.diff, demo.sh, meta.json}; or
       seed.py ID --make PROP FILE OLD NEW NEEDS BREAKS (demo files must already exist in seeded/ID)
Confirms in scratch copies: applies, touches original lines, builds, stable tests pass, demo 0 / nonzero.
--check also runs the property's check against the patched copy."""
import sys, os, json, subprocess, shutil, tempfile
BASE = "1aeb740"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    a = sys.argv[1:]; sid = a[0]; d = "/verif/seeded/" + sid
    tmp = tempfile.mkdtemp(prefix="seed_")
    try:
        w = tmp + "/r"; sh("cp -a /repo %s" % w); sh("git -C %s checkout -q -- ." % w)
        if "--make" in a:
            i = a.index("--make"); prop, f, old, new, needs, br = a[i+1:i+7]
            p = w + "/pieshell/" + f; s = open(p).read()
            if s.count(old) != 1: print("OLD occurs", s.count(old)); return 1
            open(p, "w").write(s.replace(old, new))
            diff = sh("git -C %s diff" % w).stdout
            open(d + "/patch.diff", "w").write(diff)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": br}, open(d + "/meta.json", "w"), indent=1)
            sh("git -C %s checkout -q -- ." % w)
        meta = json.load(open(d + "/meta.json"))
        diff = open(d + "/patch.diff").read()
        # removed lines must be original ones
        cur = None; bad = []
        for l in diff.split("\n"):
            if l.startswith("--- a/"): cur = sh("git -C /repo show %s:%s" % (BASE, l[6:])).stdout.split("\n")
            elif l.startswith("-") and not l.startswith("---"):
                if l[1:] not in cur: bad.append(l)
        if bad: print(sid, "lines not original:", bad)
        env = dict(os.environ, LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
        sh("find %s -name __pycache__ -prune -exec rm -rf {} +" % w)
        r0 = sh("bash %s/demo.sh" % d, cwd=w, timeout=300, env=env)
        r = sh("git -C %s apply %s/patch.diff" % (w, d))
        if r.returncode: print(sid, "apply failed", r.stderr); return 1
        # build/test as /opt/vp does, but on the copy
        r1 = sh("bash %s/demo.sh" % d, cwd=w, timeout=300, env=env)
        print(sid, "demo unchanged:", r0.returncode, "patched:", r1.returncode, (r1.stdout + r1.stderr).strip()[-200:])
        if r0.returncode: print((r0.stdout + r0.stderr)[-800:])
        if "--notest" not in a:
            sh("git -C /repo apply %s/patch.diff" % d)
            try:
                sh("bash /opt/vp/build.sh"); o = tmp + "/o.json"; sh("bash /opt/vp/test.sh " + o)
                got = set(json.load(open(o))["passed"]); want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                print(sid, "tests:", "ok" if want <= got else "BROKEN %s" % sorted(want - got))
            finally:
                sh("git -C /repo checkout -- .")
        if "--check" in a:
            e = dict(os.environ, PYVC_REPO=w, PYVC_EVIDENCE=tmp + "/ev", VERIF_SEED="1")
            r = sh("python3-vt /verif/check.py %s" % meta["property"], env=e)
            v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
            hard = [x for x in v if "no-failing" not in x]
            print(sid, "check exit", r.returncode, "violations", len(v), "hard", len(hard), (hard or v or [""])[0][:200])
    finally:
        shutil.rmtree(tmp)
main()

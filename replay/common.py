"""Replay harness: concrete executions of the real code in /repo.

Each case runs in its own forked process, which imports pieshell from the
repository, works in a scratch directory of its own and reports failing
inputs.  Cases are deterministic."""
import json
import mmap
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

REPO = os.environ.get("PYVC_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"

# what pieshell imports from outside, loaded once and inherited by the cases
import asyncio, code, contextlib, glob, inspect, logging, resource, shlex, subprocess   # noqa
import types, uuid, threading, enum, typing, builtins, io, pickle, base64, select, errno, functools, re, operator, fcntl   # noqa
for _m in ("pkg_resources", "slugify", "psutil", "signalfd"):
    try:
        __import__(_m)
    except Exception:
        pass

CASES = []


class Ctx(object):
    def __init__(self, name, dir):
        self.name = name
        self.dir = dir
        self.failures = []
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.rng = random.Random("%s/%s" % (SEED, name))
        self.progress = self.partial = None

    def ok(self, cond, sub, detail, sample=None):
        """One evaluation: cond must hold for the input described by detail."""
        self.evals += 1
        if self.progress is not None:
            self.progress[:8] = self.evals.to_bytes(8, "little")
        if sample is not None or len(self.samples) < 2:
            if len(self.samples) < 2:
                self.samples.append(repr(detail)[:300])
        self.distinct.add(repr(detail)[:2000])
        if not cond and len(self.failures) < 20:
            self.failures.append({"id": "%s/%s" % (self.name, sub), "detail": repr(detail)[:1500]})
            self.save()
        return cond

    def save(self):
        """what has failed so far, should the case not come to its end"""
        if self.partial is not None:
            with open(self.partial + ".tmp", "w") as f:
                json.dump({"evals": self.evals, "distinct": len(self.distinct), "failures": self.failures, "samples": self.samples}, f)
            os.rename(self.partial + ".tmp", self.partial)

    def eq(self, got, want, sub, inp=None):
        return self.ok(got == want, sub, {"input": inp, "got": got, "expected": want})


def case(name, timeout=60, thorough_only=False):
    def deco(fn):
        CASES.append((name, fn, timeout, thorough_only))
        return fn
    return deco


def load():
    """Import pieshell from the repository under test."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pieshell
    assert os.path.realpath(pieshell.__file__).startswith(os.path.realpath(REPO)), pieshell.__file__
    return pieshell


def fds():
    return sorted(int(x) for x in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + x))


def _child(name, fn, outfile, dir, progress):
    os.setpgid(0, 0)
    os.chdir(dir)
    c = Ctx(name, dir)
    c.progress, c.partial, c.pid = progress, outfile + ".part", os.getpid()
    try:
        if SETUP is not None:
            SETUP()
        fn(c)
    except BaseException as e:
        c.failures.append({"id": "%s/uncaught" % name, "detail": traceback.format_exc()[-1800:]})
    with open(outfile + ".tmp", "w") as f:
        json.dump({"evals": c.evals, "distinct": len(c.distinct), "failures": c.failures, "samples": c.samples}, f)
    os.rename(outfile + ".tmp", outfile)


SETUP = None


def main(rule, setup=None):
    global SETUP
    SETUP = setup
    # whatever started this may ignore or block signals (nohup)
    for n in ("HUP", "QUIT", "TERM", "USR1", "USR2", "ALRM", "CHLD", "TSTP", "TTIN", "TTOU", "CONT", "WINCH"):
        signal.signal(getattr(signal, "SIG" + n), signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    # no evaluation for this long, beyond the case's time: it hangs (a slow machine is no failure)
    STALL = 45
    t0 = time.time()
    out = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else ""
    base = tempfile.mkdtemp(prefix="replay_")
    todo = [c for c in CASES if (THOROUGH or not c[3]) and only in c[0]]
    running = {}
    res = []
    k = 0
    # before the driver gives up on the whole
    limit = time.time() + (660 if THOROUGH else 270)
    try:
        while todo or running:
            while todo and len(running) < 6:
                name, fn, timeout, _ = todo.pop(0)
                k += 1
                d = os.path.join(base, "c%d" % k)
                os.mkdir(d)
                of = os.path.join(base, "c%d.json" % k)
                sys.stdout.flush()
                sys.stderr.flush()
                progress = mmap.mmap(-1, 8)
                pid = os.fork()
                if pid == 0:
                    try:
                        # stdout of the case is a pipe-free scratch file for its own output
                        fd = os.open(os.path.join(base, "c%d.out" % k), os.O_WRONLY | os.O_CREAT | os.O_APPEND)
                        os.dup2(fd, 2)
                        os.close(fd)
                        r, w = os.pipe()        # stdout: something epoll accepts, never read
                        os.dup2(w, 1)
                        os.close(w)
                        os.close(r) if False else None
                        _child(name, fn, of, d, progress)
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        os._exit(0)
                running[pid] = [name, of, time.time() + timeout, k, progress, 0, time.time(), False]
            if time.time() > limit and todo:
                todo = []
            done = []
            for pid, r in list(running.items()):
                name, of, dl, kk, progress, seen, since, _ = r
                n = int.from_bytes(progress[:8], "little")
                if n != seen:
                    r[5], r[6] = seen, since = n, time.time()
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    done.append(pid)
                elif time.time() > dl and time.time() > since + STALL or time.time() > limit:
                    r[7] = time.time() < since + STALL
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except OSError:
                        pass
                    os.waitpid(pid, 0)
                    done.append(pid)
            for pid in done:
                name, of, dl, kk, progress, seen, since, slow = running.pop(pid)
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                progress.close()
                if os.path.exists(of):
                    with open(of) as f:
                        r = json.load(f)
                elif os.path.exists(of + ".part"):
                    with open(of + ".part") as f:
                        r = json.load(f)
                elif slow:
                    r = {"evals": seen, "distinct": seen, "samples": [], "failures": []}
                else:
                    tail = ""
                    try:
                        with open(os.path.join(base, "c%d.out" % kk), errors="replace") as f:
                            tail = f.read()[-800:]
                    except OSError:
                        pass
                    r = {"evals": 1, "distinct": 1, "samples": [],
                         "failures": [{"id": "%s/no-result" % name, "detail": "the case hung or died: " + tail}]}
                r["name"] = name + (" (cut short: slow machine)" if slow else "")
                res.append(r)
            if not done:
                time.sleep(0.01)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    res.sort(key=lambda r: r["name"])
    o = {"evaluations": sum(r["evals"] for r in res), "distinct": sum(r["distinct"] for r in res),
         "failures": [f for r in res for f in r["failures"]], "samples": [s for r in res for s in r["samples"]][:12],
         "cases": [{"case": r["name"], "evaluations": r["evals"]} for r in res], "rule": rule, "wall_s": time.time() - t0}
    with open(out, "w") as f:
        json.dump(o, f)
    if only or os.environ.get("REPLAY_VERBOSE"):
        for r in res:
            print(r["name"], r["evals"], "evaluations")
            for f in r["failures"]:
                print("   FAIL", f["id"], f["detail"][:1500])

"""C20 concretely: subshells of random pipelines, in every way they can end."""
from common import *


def setup():
    global pieshell, redir, running, Function
    pieshell = load()
    from pieshell import redir
    from pieshell.pipeline import running
    from pieshell.pipeline.function import Function
    for d in ("one", "two", "two/three"):
        os.makedirs(d, exist_ok=True)


class Inner(object):
    """random pipelines with their outcome"""

    def __init__(self, c, env):
        self.c, self.rng, self.env = c, c.rng, env

    def external(self, first, bad):
        code = self.rng.choice([1, 2, 3, 7, 42, 127, 255]) if bad else 0
        kill = bad and self.rng.random() < .2
        script = ("" if first else "cat >/dev/null; ") + "echo e%d; " % self.rng.randrange(100) + ("kill -9 $$" if kill else "exit %d" % code)
        return self.env.sh("-c", script), [9 if kill else code], script

    def function(self, first, bad):
        kind = self.rng.choice(["raise first", "raise later"]) if bad else "good"

        def fn(stdin):
            if kind == "raise first":
                raise ValueError("broken")
            yield "f"
            if kind == "raise later":
                raise OSError(5, "broken")
            yield "g"

        async def afn(stdin):
            if not first:
                async for line in stdin:
                    pass
            yield "f"
            if kind != "good":
                raise KeyError("broken")
        f = afn if not first or self.rng.random() < .3 else fn
        return Function(self.env, f), ["bad" if bad else "good"], kind

    def stage(self, first, pbad):
        bad = self.rng.random() < pbad
        if self.rng.random() < .7:
            return self.external(first, bad)
        return self.function(first, bad)

    def pipeline(self, pbad, depth=2):
        n = self.rng.choice([1, 1, 2, 3])
        p, st, text = self.stage(True, pbad)
        if st[0] in ("good", "bad") and n == 1:
            # functions alone: give them a reader
            n = 2
        for i in range(1, n):
            if i == 1 and st[0] in ("good", "bad"):
                q, s, t = self.external(False, self.rng.random() < pbad)
            else:
                q, s, t = self.stage(False, pbad)
            p, st, text = p | q, st + s, text + " | " + t
        if depth and self.rng.random() < .2:
            q, s, t = self.pipeline(pbad, depth - 1)
            p, st, text = p + q, st + s, "(%s) + (%s)" % (text, t)
        return p, st, text


def status(st):
    if all(x in (0, "good") for x in st):
        return 0
    return st[-1] if isinstance(st[-1], int) and st[-1] != 0 else 1


def outcome(c, p, how, out):
    """run p; exit codes of its processes"""
    me = os.getpid()
    if how == "interactive":
        p = p > out
    try:
        if how == "list":
            list(p)
        elif how == "str":
            str(p)
        elif how == "await":
            async def go():
                r = (p > out).run()
                await r.wait()
            asyncio.get_event_loop().run_until_complete(go())
        else:
            p.run_interactive()
        r = "ok"
    except running.PipelineError as e:
        r = "failed"
    if os.getpid() != me:
        # the child goes on with the parent's program
        with open(os.environ["PIE_ESCAPED"], "a") as f:
            f.write("escaped\n")
        os._exit(99)
    return r


def subshell(c, n, env, senv, p, st, text):
    how = c.rng.choice(["list", "str", "interactive", "await"])
    out = os.path.join(c.dir, "out%d" % n)
    sub = senv.subshell(p)
    pos = c.rng.choice(["alone", "alone", "first", "last", "group"])
    whole = sub
    if pos == "first":
        whole = sub | senv.cat()
    elif pos == "last":
        whole = senv.true() | sub         # (writes nothing: the subshell may end first)
    elif pos == "group":
        whole = sub + senv.true()
    inp = {"inner": text, "how": how, "position": pos}
    r = outcome(c, whole, how, out)
    rp = senv.last_pipeline
    codes = [x.exit_code for x in rp.processes if repr(x.cmd).startswith("subshell")]
    want = status(st)
    c.eq(codes, [want], "status", inp)
    c.eq(r, "ok" if want == 0 else "failed", "outcome", inp)
    c.ok(not rp.is_running, "waited for", inp)
    pid = [x.pid for x in rp.processes if repr(x.cmd).startswith("subshell")][0]
    c.ok(not os.path.exists("/proc/%d" % pid) or "Z" in open("/proc/%d/stat" % pid).read().split()[2], "the child has ended", inp)


for part in range(6):
    @case("random pipelines %d" % part, timeout=600 if THOROUGH else 50)
    def _(c, part=part):
        os.environ["PIE_ESCAPED"] = esc = os.path.join(c.dir, "escaped")
        env = pieshell.env(exports=dict(os.environ))
        me = os.getpid()
        for n in range(14 if not THOROUGH else 120):
            i = Inner(c, env)
            p, st, text = i.pipeline(c.rng.choice([0, .3, .6]))
            subshell(c, n, env, env(cwd=os.path.join(c.dir, c.rng.choice(["one", "two"]))), p, st, text)
            c.ok(not os.path.exists(esc) and os.getpid() == me, "the child does not go on with the parent's program", text)
            if len(c.failures) > 3:
                return


@case("descriptors and directory", timeout=600 if THOROUGH else 50)
def _(c):
    os.environ["PIE_ESCAPED"] = os.path.join(c.dir, "escaped")
    env = pieshell.env(exports=dict(os.environ))
    for n in range(10 if not THOROUGH else 60):
        d = os.path.join(c.dir, c.rng.choice(["one", "two", "two/three"]))
        senv = env(cwd=d)
        inf, out, err, extra = [os.path.join(c.dir, "%s%d" % (k, n)) for k in ("in", "out", "err", "extra")]
        with open(inf, "w") as f:
            f.write("input %d\n" % n)
        secret = os.path.join(c.dir, "secret")
        open(secret, "w").close()
        ino = os.stat(secret).st_ino
        hidden = os.open(secret, os.O_RDONLY)
        os.set_inheritable(hidden, c.rng.random() < .5)

        async def fn(stdin, seen=ino):
            def inode(fd):
                try:
                    return os.fstat(int(fd)).st_ino
                except OSError:
                    return None
            yield "leaked" if any(inode(x) == seen for x in os.listdir("/proc/self/fd")) else "closed"
            yield os.getcwd()
            async for line in stdin:
                yield line
            os.write(7, b"extra")
        p = Function(env, fn) | env.sh("-c", "cat; echo oops >&2; exit %d" % (n % 3))
        sub = senv.subshell(p)
        whole = sub > out
        whole = whole < inf
        whole = whole > redir.Redirect("stderr", err)
        whole = whole > redir.Redirect(7, extra, os.O_WRONLY | os.O_CREAT)
        r = outcome(c, whole, "plain", out)
        os.close(hidden)
        inp = {"dir": d, "n": n}
        c.eq(r, "ok" if n % 3 == 0 else "failed", "outcome", inp)
        c.eq([x.exit_code for x in senv.last_pipeline.processes], [n % 3], "status", inp)
        got = open(out).read() if os.path.exists(out) else None
        c.eq(got, "closed\n%s\ninput %d\n" % (d, n), "its own input, output and directory", inp)
        c.eq(open(extra).read() if os.path.exists(extra) else None, "extra", "other descriptors", inp)
        text = open(err).read() if os.path.exists(err) else ""
        c.ok(n % 3 == 0 or "oops" in text and "ailed" in text, "its errors", dict(inp, got=text[:300]))


@case("ways to end", timeout=600 if THOROUGH else 50)
def _(c):
    os.environ["PIE_ESCAPED"] = esc = os.path.join(c.dir, "escaped")
    env = pieshell.env(exports=dict(os.environ))

    def raiser(x):
        def fn(stdin):
            yield "a"
            raise x
        return fn

    class Strange(Exception):
        def __str__(self):
            raise ValueError("no text")
    full = redir.Redirect("stderr", "/dev/full")
    for name, p, want in [
            ("exit 0", env.sh("-c", "exit 0"), [0]), ("exit 5", env.sh("-c", "exit 5"), [5]),
            ("first of two", env.sh("-c", "exit 5") | env.cat(), [1]), ("last of two", env.echo("x") | env.sh("-c", "cat; exit 6"), [6]),
            ("both", env.sh("-c", "exit 5") | env.sh("-c", "cat; exit 6"), [6]),
            ("missing program", env.pienosuchprogram(), None), ("killed", env.sh("-c", "kill -TERM $$"), [15]),
            ("SystemExit", raiser(SystemExit(0)) | env.cat(), None), ("SystemExit 3", raiser(SystemExit(3)) | env.cat(), None),
            ("KeyboardInterrupt", raiser(KeyboardInterrupt()) | env.cat(), None),
            ("OSError", raiser(OSError(0, "zero")) | env.cat(), None), ("strange", raiser(Strange()) | env.cat(), None),
            ("no pipeline", "text", None), ("a number", 5, None), ("None", None, None),
            ("failing builtin", env.cd("/pie/none"), None), ("builtin", env.cd("/"), [0]),
            ("nested", env.subshell(env.sh("-c", "exit 7")), [7]), ("nested twice", env.subshell(env.subshell(env.sh("-c", "exit 0"))), [0]),
            ("nested fails", env.subshell(env.sh("-c", "exit 7") | env.cat()), [1]),
            ("slow", env.sh("-c", "sleep 0.3; echo done"), [0]), ("background left", env.sh("-c", "exit 4"), [4])]:
        for errs in (None, full):
            sub = env.subshell(p)
            if errs is not None:
                sub = sub > errs
            try:
                r = outcome(c, sub, "list", os.path.join(c.dir, "o"))
            except Exception as e:
                c.ok(False, "runs", (name, repr(e)))
                continue
            codes = [x.exit_code for x in env.last_pipeline.processes]
            inp = (name, errs is not None)
            c.eq(len(codes), 1, "one process", inp)
            if want is None:
                c.ok(codes[0] != 0 and r == "failed", "not 0", (inp, codes))
            else:
                c.eq((codes, r), (want, "ok" if want == [0] else "failed"), "status", inp)
            c.ok(not os.path.exists(esc), "ends", inp)
    # no argument at all
    r = outcome(c, env.subshell(), "list", None)
    c.ok(r == "failed" and [x.exit_code for x in env.last_pipeline.processes] != [0], "no pipeline", None)
    # a directory that is gone, descriptors that can not be applied
    gone = os.path.join(c.dir, "gone")
    os.mkdir(gone)
    e2 = env(cwd=gone)
    os.rmdir(gone)
    marker = os.path.join(c.dir, "marker")
    for name, sub in [("gone", e2.subshell(env.touch(marker))), ("no file", env.subshell(env.touch(marker)) < os.path.join(c.dir, "nofile"))]:
        r = outcome(c, sub, "plain", None)
        c.ok(r == "failed", "fails", name)
        c.ok(not os.path.exists(marker), "the pipeline is not run", name)
    c.ok(not os.path.exists(esc), "ends", None)


@case("the parent goes on", timeout=120 if THOROUGH else 40)
def _(c):
    os.environ["PIE_ESCAPED"] = esc = os.path.join(c.dir, "escaped")
    env = pieshell.env(exports=dict(os.environ))
    count = os.path.join(c.dir, "count")
    ran = os.path.join(c.dir, "ran")
    for n in range(6):
        me = os.getpid()

        def fn(stdin, n=n):
            with open(ran, "a") as f:
                f.write("%d %d\n" % (n, os.getpid()))
            yield "x"
            if n % 2:
                raise ValueError("x")
        p = env.subshell(Function(env, fn) | env.cat())
        with contextlib.suppress(running.PipelineError):
            list(p)
        with open(count, "a") as f:
            f.write("%d\n" % os.getpid())
        if os.getpid() != me:
            os._exit(99)
    got = [x.split() for x in open(ran).read().split("\n") if x]
    c.eq([x[0] for x in got], [str(n) for n in range(6)], "the pipeline runs once")
    c.ok(all(int(x[1]) != os.getpid() for x in got) and len(set(x[1] for x in got)) == 6, "in a process of its own", got)
    c.eq(open(count).read(), "%d\n" % os.getpid() * 6, "only the parent goes on")
    c.ok(not os.path.exists(esc), "ends", None)
    with contextlib.suppress(ChildProcessError):
        while True:
            p, s = os.waitpid(-1, os.WNOHANG)
            if not p:
                c.ok(False, "no child is left", p)
                break


main("random inner pipelines of external programs and functions with random outcomes (exit codes, signals, exceptions before and after output), groups and nesting, run in four ways and at different places of an outer pipeline, against the status the outcome demands; marker files show any process that goes on with the parent's program", setup)

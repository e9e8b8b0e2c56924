"""C23 concretely: pipelines pickled and restored, here and in another
interpreter, and sent through a stand-in for ssh."""
from common import *
import collections, decimal, fractions, pathlib

Point = collections.namedtuple("Point", "x y")
WORDS = ["text", "", "two words", "it's", 'say "x"', "a*b?[c]", "%%d", "$HOME `x`", "back\\slash", "-n", "--x=1", "r\xe4ksm\xf6rg\xe5s", "\u20ac", "line\nline", "\t", "x" * 5000]


class Mark(str):
    pass


def setup():
    global m, pieshell
    pieshell = load()
    import pieshell.redir, pieshell.environ, pieshell.pipeline
    from pieshell.pipeline import base, function, running, command, pipe, group, redirect, builtins as bs
    from pieshell import redir, environ

    class M(object):
        pass
    m = M()
    m.base, m.function, m.running, m.redir, m.environ = base, function, running, redir, environ
    m.command, m.pipe, m.group, m.redirect, m.bs = command, pipe, group, redirect, bs
    asyncio.get_event_loop().set_exception_handler(lambda l, x: None)


# -- the meaning of a value, as text -------------------------------------------
# (the source of this function is also given to the other interpreter)

def shape(x):
    t = type(x)
    mod, name = t.__module__, t.__qualname__

    def attrs(*names):
        return "%s.%s(%s)" % (mod, name, ", ".join("%s=%s" % (n, shape(x.__dict__[n])) for n in names))
    if mod.startswith("pieshell."):
        if name == "Pipe":
            return attrs("src", "dst", "_env", "_started")
        if name == "Group":
            return attrs("a", "b", "_env", "_started")
        if name == "CmdRedirect":
            return attrs("pipeline", "cmd_redirects", "_env", "_started")
        if name == "Function":
            return attrs("function", "_arg", "_kw", "_env", "_started")
        if "_arg" in x.__dict__:
            return attrs("_arg", "_env", "_started")
        if name == "Redirect":
            return attrs("fd", "source", "flag", "mode", "pipe", "borrowed")
        if name == "Redirects":
            return attrs("redirects")
        if name == "Environment":
            e = x.__dict__["_exports_value"]
            return "env(%r, %s, %r, %s, %s)" % (x._cwd, "own %r" % sorted(e.items()) if e is not None else "none", x._interactive, shape(x._redirects), shape(x._bashfunctions))
        if name == "R":
            return "R(%s)" % shape(x.str)
        return "%s.%s(%s)" % (mod, name, ", ".join("%s=%s" % (k, shape(v)) for k, v in sorted(x.__dict__.items())))
    if isinstance(x, dict):
        return "%s{%s}" % (name, ", ".join("%s: %s" % (shape(k), shape(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return "%s{%s}" % (name, ", ".join(sorted(shape(v) for v in x)))
    if isinstance(x, (list, tuple)):
        return "%s[%s]" % (name, ", ".join(shape(v) for v in x))
    if isinstance(x, (str, bytes, bytearray, int, float)) or x is None or mod in ("decimal", "fractions", "pathlib"):
        return "%s:%s" % (name, ascii(x))
    return "%s.%s" % (getattr(x, "__module__", "?"), getattr(x, "__qualname__", "?"))


def sub(p):
    """the pipelines p is made of"""
    yield p
    for a in ("src", "dst", "a", "b", "pipeline"):
        if isinstance(type(p), m.base.DescribableObjectType) and a in p.__dict__:
            for q in sub(p.__dict__[a]):
                yield q
    for a in ("_arg", "_kw"):
        v = p.__dict__.get(a, ()) if isinstance(type(p), m.base.DescribableObjectType) else ()
        for x in (v.values() if isinstance(v, dict) else v):
            if isinstance(type(x), m.base.DescribableObjectType):
                for q in sub(x):
                    yield q


class Gen(object):
    def __init__(self, rng, envs):
        self.r, self.envs = rng, envs

    def env(self):
        return self.r.choice(self.envs)

    def leaf(self):
        r = self.r
        return r.choice([lambda: r.choice(WORDS), lambda: r.choice(WORDS), lambda: b"\xff\x00bytes", lambda: r.randrange(-5, 2 ** 70), lambda: 1.5, lambda: None, lambda: True,
                         lambda: decimal.Decimal("1.50"), lambda: fractions.Fraction(1, 3), lambda: pathlib.Path("/x/y"), lambda: len, lambda: decimal.Decimal, lambda: os.path.join,
                         lambda: {1, 2}, lambda: bytearray(b"x"), lambda: m.environ.R(r.choice(WORDS)), lambda: m.redir.PIPE, lambda: m.redir.STRING, lambda: m.redir.TMP,
                         lambda: m.redir.Redirect(r.randrange(3), "/x")])()

    def value(self, depth):
        r = self.r
        n = r.choice([0, 1, 2, 3])
        if depth <= 0:
            return self.leaf()
        return r.choice([lambda: self.leaf(), lambda: [self.value(depth - 1) for _ in range(n)], lambda: tuple(self.value(depth - 1) for _ in range(n)),
                         lambda: {r.choice(WORDS): self.value(depth - 1) for _ in range(n)}, lambda: collections.OrderedDict((i, self.value(depth - 1)) for i in range(n)),
                         lambda: self.command(depth - 1), lambda: self.pipeline(depth - 1)])()

    def source(self):
        r = self.r
        return r.choice([lambda: r.choice(["/tmp/some", "%(HOME)s/x", "~/y", "../z"]), lambda: pathlib.Path("/p/q"), lambda: b"/bytes", lambda: m.redir.PIPE, lambda: m.redir.STRING,
                         lambda: m.redir.TMP, lambda: 7, lambda: m.redir.TMP(dir="/var/tmp"), lambda: None])()

    def redirects(self):
        r = self.r
        rs = [m.redir.Redirect(fd, self.source(), r.choice([os.O_WRONLY, os.O_RDONLY, os.O_APPEND | os.O_WRONLY]), r.choice([0o600, 0o777]), r.choice([None, 9]), r.random() < 0.5)
              for fd in r.sample(range(8), r.choice([0, 1, 2, 3]))]
        res = m.redir.Redirects(defaults=False)
        for x in rs:
            res.redirects[x.fd] = x
        return res

    def command(self, depth):
        r = self.r
        if r.random() < 0.15:
            words = r.choice([["cd", "/tmp"], ["bg"], ["remote", "there", r.choice(WORDS)], ["bash", "-c", "x"], ["_"], ["clear_dir_cache"]])
            if words[0] == "remote" and depth > 0:
                words.append(self.pipeline(depth - 1))
            return m.command.BaseCommand(self.env(), words)
        p = getattr(self.env(), r.choice(["echo", "cat", "my-prog", "x.y"]))
        for _ in range(r.choice([0, 1, 2])):
            p = p(*[self.value(depth) for _ in range(r.choice([0, 1, 2]))], **({"opt": self.value(depth)} if r.random() < 0.4 else {}))
        return p

    def pipeline(self, depth):
        r = self.r
        if depth <= 0:
            if r.random() < 0.7:
                return self.command(0)
            return m.function.Function(self.env(), r.choice([len, os.path.join, ["a", "b"], ("x",), "text", {"k": 1}]), *[self.value(0) for _ in range(r.choice([0, 2]))],
                                       **({"k": self.value(0)} if r.random() < 0.3 else {}))
        k = r.choice(["pipe", "group", "redirects", "deep"])
        if k == "deep":
            return self.pipeline(depth - 1)
        a = self.pipeline(depth - 1)
        if k == "redirects":
            return m.redirect.CmdRedirect(self.env(), a, self.redirects())
        b = a if r.random() < 0.2 else self.pipeline(depth - 1)
        return m.pipe.Pipe(self.env(), a, b) if k == "pipe" else m.group.Group(self.env(), a, b)


def environments(c, loop, jobs):
    """environments with a history"""
    r = c.rng
    res = []
    for i in range(4):
        e = pieshell.env(cwd=r.choice(["/", "/tmp", c.dir]), exports={k: r.choice(WORDS) for k in r.sample(["A", "B", "HOME", "LANG", "X_1"], r.choice([0, 2, 5]))})
        if r.random() < 0.3:
            e._exports = None
        if r.random() < 0.4:
            e._bashfunctions.update({"f": "f () { echo %s; }" % r.choice(WORDS), "g": "x"})
        if r.random() < 0.5:
            e._redirects.redirect(r.choice([1, 2, 5]), r.choice(["/dev/null", m.redir.PIPE]), os.O_WRONLY)
        if r.random() < 0.5:
            scope = m.environ.EnvScope(env=e)
            scope["env"] = e
            scope["local"] = lambda: None
        if r.random() < 0.5:
            e._exports_value, x = {"PATH": os.environ["PATH"]}, e._exports_value
            try:
                list(e.echo("x"))                      # something has run
                if r.random() < 0.5:
                    jobs.append(e.sleep("1000").run([m.redir.Redirect("stdin", "/dev/null"), m.redir.Redirect("stdout", "/dev/null")]))
                if r.random() < 0.5:
                    (e.true() > "/dev/null").run_interactive()      # sets last_pipeline
            finally:
                e._exports_value = x
        if r.random() < 0.3:
            e._interactive = True
        res.append(e)
    return res


def end(jobs):
    for j in jobs:
        for p in j.processes:
            try:
                os.kill(p.pid, signal.SIGKILL)
            except (OSError, AttributeError):
                pass


def restored(c, x, y, sid, quick=False):
    """what holds of every part of something restored"""
    for q in sub(y):
        d = q.__dict__
        c.ok(d.get("_running_process") is None and "_running_processes" not in d, sid + "/runs", shape(x)[:600])
        e = d["_env"]
        c.ok(e.__dict__.get("_scope") is None and list(e.running_pipelines) == [] and e.__dict__.get("last_pipeline") is None, sid + "/fresh-environment", shape(x)[:600])
        c.ok(e is not x._env, sid + "/environment", shape(x)[:300])


for _k in range(3):
    @case("roundtrip-%d" % _k, timeout=120)
    def _(c):
        loop = asyncio.get_event_loop()
        for rnd in range(12 if not THOROUGH else 80):
            jobs = []
            try:
                g = Gen(c.rng, environments(c, loop, jobs))
                for it in range(40):
                    x = g.pipeline(c.rng.choice([0, 1, 2, 3]))
                    before = shape(x)
                    state = [(id(q), {k: id(v) for k, v in q.__dict__.items()}) for q in sub(x)]
                    envs = [(id(e), {k: id(v) for k, v in e.__dict__.items()}) for e in g.envs]
                    try:
                        data = pickle.dumps(x, c.rng.choice([2, 3, 4, pickle.DEFAULT_PROTOCOL]))
                        y = pickle.loads(data)
                    except Exception as e:
                        c.ok(False, "fails", (before[:800], repr(e)))
                        continue
                    c.ok(type(y) is type(x), "class", before[:300])
                    c.eq(shape(y), before, "meaning", None)
                    restored(c, x, y, "restored")
                    # the value itself stays as it was
                    c.eq(shape(x), before, "original")
                    c.ok([(id(q), {k: id(v) for k, v in q.__dict__.items()}) for q in sub(x)] == state
                         and [(id(e), {k: id(v) for k, v in e.__dict__.items()}) for e in g.envs] == envs, "original/objects", before[:300])
                    # and once more, from there
                    c.eq(shape(pickle.loads(pickle.dumps(y))), before, "again")
                    if not any(e._interactive for e in g.envs):
                        norm = lambda s: re.sub(r"\[\d+:", "[:", re.sub(r"0x[0-9a-f]+|@ \d+", "@", s))
                        c.eq(norm(repr(y)), norm(repr(x)), "repr", before[:300])
            finally:
                end(jobs)


@case("finished-and-running", timeout=60)
def _(c):
    """values that ran, or run right now, as part of a job"""
    env = pieshell.env(exports=dict(os.environ))
    for make in (lambda: env.sh("-c", "exit 3"), lambda: env.sleep(1000), lambda: env.echo("x") | env.cat(), lambda: env.sleep(1000) | env.cat(),
                 lambda: env.echo("x") > "/dev/null", lambda: env.echo("a") + env.echo("b")):
        p = make()
        for q in (p, p | env.cat(), env.remote("host", p)):
            want = shape(q)
            c.eq(shape(pickle.loads(pickle.dumps(q))), want, "value")
        rp = p.run([m.redir.Redirect("stdout", "/dev/null"), m.redir.Redirect("stdin", "/dev/null")])
        c.eq(shape(pickle.loads(pickle.dumps(p))), shape(p), "while it runs")
        c.eq(shape(pickle.loads(pickle.dumps(p | env.cat()))), shape(p | env.cat()), "while it runs, as a part")
        # the copy that runs
        for moment in ("running", "ended"):
            try:
                y = pickle.loads(pickle.dumps(rp.pipeline))
                c.eq(shape(y), shape(rp.pipeline), moment)
                restored(c, rp.pipeline, y, moment)
            except Exception as e:
                c.ok(False, moment + "/fails", (shape(p)[:500], repr(e)))
            if moment == "ended":
                break
            end([rp])
            try:
                asyncio.get_event_loop().run_until_complete(asyncio.wait_for(rp.wait(), 20))
            except m.running.PipelineError:
                pass
        try:
            rp.pipeline and asyncio.get_event_loop().run_until_complete(asyncio.wait_for(rp.wait(), 20))
        except m.running.PipelineError:
            pass
        c.eq(shape(pickle.loads(pickle.dumps(p))), shape(p), "afterwards")
        y = pickle.loads(pickle.dumps(env.echo("ok")))
        c.eq(list(y), ["ok"], "restored pipelines run")
        c.eq(list(y), ["ok"], "restored pipelines run again")


@case("another interpreter", timeout=150)
def _(c):
    """what a fresh interpreter makes of them"""
    jobs = []
    items = []
    try:
        for rnd in range(12 if not THOROUGH else 100):
            g = Gen(c.rng, environments(c, asyncio.get_event_loop(), jobs))
            for it in range(30):
                x = g.pipeline(c.rng.choice([0, 1, 2, 3]))
                try:
                    items.append((base64.b64encode(pickle.dumps(x)).decode("ascii"), shape(x)))
                except Exception as e:
                    c.ok(False, "fails", (shape(x)[:800], repr(e)))
    finally:
        end(jobs)
    with open("items", "w") as f:
        for b, s in items:
            f.write(b + "\n")
    script = """import sys, pickle, base64
sys.path.insert(0, %r)
import pieshell
%s
for line in open("items"):
    try:
        r = shape(pickle.loads(base64.b64decode(line)))
    except Exception as e:
        r = "failed: %%r" %% (e,)
    print(ascii(r))
""" % (REPO, inspect.getsource(shape))
    with open("there.py", "w") as f:
        f.write(script)
    os.mkdir("home")
    r = subprocess.run([sys.executable, "there.py"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL,
                       env={"PATH": os.environ["PATH"], "HOME": c.dir + "/home", "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1"}, cwd=c.dir)
    out = r.stdout.decode("utf-8").split("\n")
    c.ok(len(out) == len(items) + 1, "ends", r.stderr.decode("utf-8", "replace")[-800:])
    for (b, s), o in zip(items, out):
        c.eq(o, ascii(s), "meaning")


# -- through (a stand-in for) ssh -----------------------------------------------

def there(c):
    """a directory of programs: ssh runs its command line in a shell, with
    another environment and directory; pieshell is the one of the repository"""
    os.makedirs("bin")
    os.makedirs("far/home")
    os.makedirs("near/home")
    with open("bin/ssh", "w") as f:
        f.write("""#!/bin/sh
printf '%%s\\n' "$#" "$@" >> '%(dir)s/ssh.log'
for last; do :; done
case "$1" in nohost) exit 255;; esac
cd '%(dir)s/far'
exec env -i PATH='%(dir)s/bin:%(path)s' HOME='%(dir)s/far/home' LC_ALL=C.UTF-8 WHERE=far PYTHONDONTWRITEBYTECODE=1 sh -c "$last"
""" % {"dir": c.dir, "path": os.environ["PATH"]})
    with open("bin/pieshell", "w") as f:
        f.write("""#!/bin/sh
exec '%s' -c 'import sys; sys.path.insert(0, "%s"); sys.argv[0] = "pieshell"
from pieshell.shell import main
sys.exit(main())' "$@"
""" % (sys.executable, REPO))
    for n in ("ssh", "pieshell"):
        os.chmod("bin/" + n, 0o755)
    return {"PATH": c.dir + "/bin:" + os.environ["PATH"], "HOME": c.dir + "/near/home", "LC_ALL": "C.UTF-8", "WHERE": "near"}


def collect(p, stdin="/dev/null"):
    async def get():
        out = []
        try:
            async for x in p.run([m.redir.Redirect("stdout", m.redir.PIPE), m.redir.Redirect("stdin", stdin, os.O_RDONLY), m.redir.Redirect("stderr", "err", os.O_WRONLY | os.O_CREAT)]).iterbytes():
                out.append(x)
            how = "ok"
        except m.running.PipelineFailed:
            how = "failed"
        return b"".join(out), how
    return asyncio.get_event_loop().run_until_complete(asyncio.wait_for(get(), 40))


REMOTE = [
    ("words", lambda env, d: env.printf("<%%s>\\n", *[w for w in WORDS if "*" not in w])),
    ("raw", lambda env, d: env.printf("<%%s>\\n", m.environ.R("a*b?[c] %s %(HOME)s"), "/et[c]", "*.none")),
    ("variables", lambda env, d: env.sh("-c", 'echo "$WHERE $HOME" "$0"; pwd', "%(WHERE)s %(HOME)s ~")),
    ("pipes", lambda env, d: (env.echo("b\na\nb") | env.sort() | env.uniq("-c")) + env.echo("end")),
    ("status", lambda env, d: env.echo("before") + env.sh("-c", "exit 3")),
    ("failing part", lambda env, d: env.false() | env.echo("x")),
    ("file", lambda env, d: env.sh("-c", "cat; cat out", ) < "in.txt"),
    ("tofile", lambda env, d: (env.echo("written") > d + "/written") + env.echo("x")),
    ("function", lambda env, d: m.function.Function(env, ["one", "two"]) | env.cat("-n")),
    ("stdin", lambda env, d: env.cat("-n") | env.tac()),
    ("cd", lambda env, d: env.ls("-1") | env.cat()),
    ("patterns", lambda env, d: env.echo("*.txt", "f[i]le?")),
    ("arguments", lambda env, d: env.cat(env.echo("as a file"), env.echo("as another") | env.tr("a", "b"))),
]


for _k in range(4):
    @case("remote-%d" % _k, timeout=150)
    def _(c, k=_k):
        exports = there(c)
        os.mkdir("work")
        for n in ("file1", "file2", "a.txt", "b.txt", "out"):
            with open("work/" + n, "w") as f:
                f.write(n + "\n")
        with open("work/in.txt", "w") as f:
            f.write("input\n")
        with open("stdin", "w") as f:
            f.write("l1\nl2\nl3\n")
        env = pieshell.env(cwd=c.dir + "/work", exports=exports)
        if k % 2:
            list(env.echo("something has run"))
        for i, (name, make) in enumerate(REMOTE):
            if i % 4 != k and not THOROUGH:
                continue
            p = make(env, c.dir)
            want = collect(p, c.dir + "/stdin")
            for f in ("written", "ssh.log"):
                if os.path.exists(f):
                    os.unlink(f)
            words = c.rng.choice([["host"], ["host", "-p", "22"], ["-o", "User Name=x y", "host"], []])
            sent = env.remote(*(words + [p])) if words else env.remote(p)
            before = shape(sent)
            try:
                got = collect(sent, c.dir + "/stdin")
            except Exception as e:
                c.ok(False, name + "/fails", (shape(p)[:500], repr(e)))
                continue
            # (the parts of a group run at the same time)
            c.eq(sorted(got[0].split(b"\n")), sorted(want[0].split(b"\n")), name + "/output", (shape(p)[:400], open("err", errors="replace").read()[-600:] if os.path.exists("err") else ""))
            c.eq(got[1], want[1], name + "/status", shape(p)[:400])
            c.eq(shape(sent), before, name + "/original")
            if name == "tofile":
                c.ok(os.path.exists("written") and open("written").read() == "written\n", name + "/file", want)
            with open("ssh.log") as f:
                log = f.read().split("\n")
            c.eq(log[1:1 + len(words)], words, name + "/words", log[:6])
            c.ok("".join(log).count("--pcmd=") == 1, name + "/once", log)


@case("remote: its failure, environments without exports", timeout=100)
def _(c):
    exports = there(c)
    os.mkdir("work")
    env = pieshell.env(cwd=c.dir + "/work", exports=exports)
    c.eq(collect(env.remote("nohost", env.echo("x"))), (b"", "failed"), "ssh fails")
    plain = pieshell.env(cwd=c.dir + "/work", exports={"A": "1"})
    plain._exports = None
    got = collect(env.remote("host", plain.sh("-c", 'echo "$WHERE"; pwd')))
    c.eq(got, (b"far\n" + (c.dir + "/work\n").encode(), "ok"), "exports of the other machine, directory of the environment")
    gone = pieshell.env(cwd=c.dir + "/work", exports=dict(exports))
    gone._cwd = c.dir + "/gone"
    c.eq(collect(env.remote("host", gone.echo("x")))[1], "failed", "a directory that is not there")


main("1440 random pipelines (pipes, groups, redirections to files, pipes, temporary files and descriptors, functions, builtins, nested argument values, R, pipelines as arguments) in "
     "environments with and without exports, functions, scopes, jobs that run or ran, pickled and restored: same classes, structure, arguments, redirections and settings, nothing that runs, the "
     "original as it was; 360 of them restored by another interpreter; 16 pipelines sent with remote through a stand-in for ssh: output, status and files as here", setup)

"""C14 concretely: random derivations and later changes against a model."""
from common import *


def setup():
    global pieshell, environ, redir
    pieshell = load()
    from pieshell import environ, redir


def table(r):
    return {k: (x.fd, x.source, x.flag, x.mode, x.pipe, x.borrowed) for k, x in r.redirects.items()}


def state(e):
    return (e._cwd, dict(e._exports), e._interactive, table(e._redirects))


def rand_redirects(c):
    r = redir.Redirects()
    for fd in c.rng.sample([0, 1, 2, 3, 7], c.rng.randrange(0, 4)):
        r.redirect(fd, c.rng.choice([0, 5, "/dev/null", redir.STRING, redir.TMP, redir.PIPE]), c.rng.choice([os.O_RDONLY, os.O_WRONLY]),
                   borrowed=c.rng.random() < .5)
    return r


def rand_exports(c):
    return {k: "v%d" % c.rng.randrange(99) for k in c.rng.sample(["A", "B", "HOME2", "LANG", "X_Y"], c.rng.randrange(0, 4))}


DIRS = ["a", "a/b", "~nosuchuserx", "c d", "[x]", "a/~", ".h"]


def expect(base, p):
    p = os.path.expanduser(p)
    return os.path.normpath(p if p.startswith("/") else base.rstrip("/") + "/" + p)


@case("derive")
def _(c):
    root = c.dir
    for d in DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    home = os.path.join(root, "a")
    os.environ["HOME"] = home
    paths = DIRS + [".", "..", "/", root, root + "/a/../c d", "missing", "a/missing", "~", "~/b", "~/missing", "b", "", "./a"]
    for n in range(400):
        start = os.path.join(root, c.rng.choice(["", "a", "a/b"])).rstrip("/")
        os.chdir(start)
        envs = [(environ.Environment(cwd=c.rng.choice([None, root, "."]), exports=c.rng.choice([None, {}, rand_exports(c)])), None)]
        e0 = envs[0][0]
        if c.rng.random() < .5:
            e0._redirects = rand_redirects(c)
        c.ok(os.getcwd() == start, "non interactive construction keeps the directory", start)
        model = [state(e0)]
        es = [e0]
        hist = []
        proc = start
        for step in range(c.rng.choice([2, 5, 9])):
            i = c.rng.randrange(len(es))
            e = es[i]
            op = c.rng.random()
            if op < .5:
                kw = {}
                want = list(model[i])
                missing = False
                if c.rng.random() < .6:
                    kw["cwd"] = c.rng.choice(paths)
                    want[0] = expect(want[0], kw["cwd"])
                    missing = not os.path.isdir(want[0])
                if c.rng.random() < .4:
                    kw["exports"] = c.rng.choice([{}, rand_exports(c)])
                    want[1] = dict(kw["exports"])
                if c.rng.random() < .4:
                    kw["interactive"] = c.rng.random() < .5
                    want[2] = kw["interactive"]
                if c.rng.random() < .4:
                    kw["redirects"] = c.rng.choice([redir.Redirects(), rand_redirects(c)])
                    want[3] = table(kw["redirects"])
                hist.append(("derive", i, {k: (str(v) if k == "redirects" else v) for k, v in kw.items()}))
                try:
                    if set(kw) == {"cwd"} and c.rng.random() < .5:
                        new = e[kw["cwd"]]
                    else:
                        new = e(**kw)
                except OSError:
                    c.ok(missing, "raises only for missing directories", {"start": start, "history": hist})
                    if not missing:
                        break
                    proc = os.getcwd()      # deriving may have moved to the parent's own directory
                else:
                    c.ok(not missing, "missing directory accepted", {"start": start, "history": hist})
                    c.eq(state(new), tuple(want), "inherited or given", {"start": start, "history": hist})
                    c.ok(new is not e and new._redirects is not e._redirects and (new._exports is not e._exports), "not shared", hist)
                    if want[2]:
                        proc = want[0]
                    es.append(new)
                    model.append(tuple(want))
            elif op < .65:
                p = c.rng.choice(paths)
                hist.append(("cd", i, p))
                want = expect(model[i][0], p)
                via = c.rng.random() < .5
                try:
                    if via:
                        e.cd(p)._run(None, {})
                    else:
                        e._cd(p)
                except OSError:
                    c.ok(not os.path.isdir(want), "cd raises only for missing directories", {"start": start, "history": hist})
                else:
                    c.ok(os.path.isdir(want), "cd to a missing directory accepted", {"start": start, "history": hist})
                    m = list(model[i])
                    m[0] = want
                    model[i] = tuple(m)
                    if m[2]:
                        proc = want
            elif op < .85:
                if e._exports is os.environ:
                    continue
                k = c.rng.choice(["A", "B", "NEW"])
                hist.append(("export", i, k))
                ex = dict(model[i][1])
                if c.rng.random() < .3 and k in ex:
                    del e._exports[k]
                    del ex[k]
                else:
                    e._exports[k] = ex[k] = "c%d" % step
                m = list(model[i])
                m[1] = ex
                model[i] = tuple(m)
            else:
                how = c.rng.randrange(4)
                hist.append(("redirect", i, how))
                m = list(model[i])
                t = dict(m[3])
                if how == 0:
                    e._redirects.redirect(9, "/dev/null", os.O_RDONLY)
                    t[9] = (9, "/dev/null", os.O_RDONLY, 0o777, None, False)
                elif how == 1:
                    e._redirects.borrow()
                    t = {k: v[:5] + (True,) for k, v in t.items()}
                elif how == 3:
                    ("f%d" % step) | e
                    t[0] = (0, "f%d" % step, os.O_RDONLY, 0o777, None, False)
                else:
                    e | ("f%d" % step)
                    t[1] = (1, "f%d" % step, os.O_WRONLY | os.O_CREAT, 0o777, None, False)
                m[3] = t
                model[i] = tuple(m)
            for j, x in enumerate(es):
                c.eq(state(x), model[j], "isolation", {"start": start, "history": hist, "env": j})
            c.eq(os.getcwd(), proc, "interpreter directory", {"start": start, "history": hist})
        os.chdir(root)


@case("os.environ is copied")
def _(c):
    e = environ.Environment(cwd=c.dir)
    d = e()
    os.environ["PYVC_A"] = "1"
    c.ok("PYVC_A" not in d._exports and "PYVC_A" in e._exports, "copied", "PYVC_A")
    d._exports["PYVC_B"] = "1"
    c.ok("PYVC_B" not in os.environ, "not exported", "PYVC_B")


@case("default redirections")
def _(c):
    """an environment made without any: the interpreter's, except for errors, which are kept"""
    for e in (environ.Environment(), environ.Environment(cwd=c.dir, exports={}), environ.Environment(interactive=True)):
        t = e._redirects.redirects
        c.eq(sorted(t), [0, 1, 2], "descriptors", "")
        for fd in (0, 1):
            c.eq((t[fd].fd, t[fd].source, t[fd].borrowed), (fd, fd, True), "the interpreter's own", fd)
        c.eq((t[2].fd, t[2].source), (2, redir.STRING), "errors are captured", "")
        c.eq(table(e()._redirects), table(e._redirects), "inherited", "")


@case("cd arguments")
def _(c):
    for d in ("x", "x/y", "x/PARENTS", "z"):
        os.makedirs(os.path.join(c.dir, d), exist_ok=True)
    os.environ["HOME"] = os.path.join(c.dir, "z")
    for n in range(200):
        e = environ.Environment(cwd=os.path.join(c.dir, c.rng.choice(["", "x", "x/y"])))
        args = [c.rng.choice(["x", "y", "PARENT", "ROOT", ".", c.dir, "PARENTS", "~"]) for i in range(c.rng.randrange(5))]
        rep = [{"PARENT": "..", "ROOT": "/"}.get(a, a) for a in args]
        want = expect(e._cwd, os.path.join(*rep) if rep else "~")
        cmd = e.cd
        for a in args:
            cmd = cmd(a) if c.rng.random() < .5 or not a.isalpha() else getattr(cmd, a)
        before = state(e)
        try:
            r = cmd._run(None, {})
        except OSError:
            c.ok(not os.path.isdir(want), "raises", args)
            c.eq(state(e), before, "nothing changed", args)
        else:
            c.eq(e._cwd, want, "directory", args)
            c.eq(r, [], "no process", args)


main("400 random histories of derivations with all option subsets (empty ones included), cd, exports and redirections over a tree with odd names; non-trivial: every environment is compared with its model after every step", setup)

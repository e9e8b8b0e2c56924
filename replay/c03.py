"""C03 concretely: random constructions against a model of what each denotes;
everything built earlier is re-examined after every step, and starting
anything is noticed."""
from common import *


def setup():
    global pieshell, environ, redir, command, builtin, builtins_, pipe, group, redirect, function, base
    pieshell = load()
    from pieshell import environ, redir
    from pieshell.pipeline import command, builtin, pipe, group, redirect, function, base
    from pieshell.pipeline import builtins as builtins_


WORDS = ["git", "status", "cd", "bashsource", "echo", "grep", "sub_cmd", "x", "bg", "tar", "subshell", "remote"]


class Started(object):
    """Stand-ins that record every way of starting something."""
    def __init__(self):
        self.n = []
        for mod, names in ((os, ("fork", "pipe", "execvpe", "execvp", "posix_spawn", "system", "popen", "dup", "dup2")),
                           (subprocess, ("Popen",)), (tempfile, ("mkstemp",))):
            for nm in names:
                self._wrap(mod, nm)
        self._open = os.open
        os.open = lambda *a, **k: (self.n.append(("open", a)), self._open(*a, **k))[1]

    def _wrap(self, mod, nm):
        old = getattr(mod, nm, None)
        if old is None:
            return

        def f(*a, **k):
            self.n.append((nm, a))
            raise RuntimeError("started something: " + nm)
        setattr(mod, nm, f)


def denote(v, seen=None):
    """What a value denotes, for comparing with an earlier observation."""
    if isinstance(v, base.Pipeline):
        d = type.__getattribute__(v, "__dict__") if False else dict(v.__dict__)
        keep = {}
        for k, x in d.items():
            if k.startswith("__") or k in ("_running_process",):
                continue
            keep[k] = denote(x)
        return (type(v).__name__, id(v), tuple(sorted(keep.items(), key=lambda kv: kv[0])))
    if isinstance(v, redir.Redirects):
        return ("Redirects", id(v), tuple((k, denote(r)) for k, r in v.redirects.items()))
    if isinstance(v, redir.Redirect):
        return ("Redirect", v.fd, repr(v.source), v.flag, v.mode, repr(v.pipe), v.borrowed)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, id(v)) + tuple(denote(x) for x in v)
    if isinstance(v, dict):
        return ("dict", id(v), tuple((k, denote(x)) for k, x in v.items()))
    if isinstance(v, (str, int, bool, type(None), bytes)):
        return v
    return (type(v).__name__, id(v))


def lists_in(v, out):
    if isinstance(v, base.Pipeline):
        for k, x in v.__dict__.items():
            if not k.startswith("__"):
                lists_in(x, out)
    elif isinstance(v, list):
        out.append(id(v))
    return out


def values(c):
    R = environ.R
    return [lambda: "a b", lambda: c.rng.choice(WORDS), lambda: c.rng.randrange(100), lambda: R("*x"), lambda: None, lambda: True,
            lambda: False, lambda: 1.5, lambda: b"by", lambda: "", lambda: "--x=1", lambda: (1, 2), lambda: "-n", lambda: {"opt": 1}, lambda: {}, lambda: ["l"]]


def kwargs(c):
    vs = values(c)
    return {k: c.rng.choice(vs)() for k in c.rng.sample(["verbose", "o", "the_name", "x1", "Z"], c.rng.choice([0, 0, 1, 2, 3]))}


def cls_of(word):
    return builtin.BuiltinRegistry.builtins.get(word, command.Command)


def same_args(got, want):
    return len(got) == len(want) and all((g is w) or (type(g) is type(w) and isinstance(g, dict) and list(g.items()) == list(w.items()))
                                         or (isinstance(g, str) and g == w) for g, w in zip(got, want))


@case("spellings", timeout=90)
def _(c):
    st = Started()
    env = environ.env(exports={"PATH": "/bin"})
    for it in range(600 if not THOROUGH else 5000):
        w = c.rng.choice(WORDS)
        w2 = c.rng.choice(WORDS)
        pos = [c.rng.choice(values(c))() for _ in range(c.rng.randrange(4))]
        kw = kwargs(c)
        given = list(pos)
        a = getattr(getattr(env, w), w2)(*pos, **kw)
        b = getattr(env, w)(w2, *pos, **kw)
        d = env._(w, w2, *pos, **kw)
        e = command.BaseCommand(env, given_list := [w, w2] + pos + ([kw] if kw else []))
        inp = (w, w2, repr(pos), repr(kw))
        want = [w, w2] + pos + ([kw] if kw else [])
        for nm, x in (("attribute", a), ("call", b), ("underscore", d), ("list", e)):
            c.ok(type(x) is cls_of(w), nm + "-class", (inp, type(x).__name__))
            c.ok(isinstance(x, base.Pipeline) and x._env is env, nm + "-env", inp)
            c.ok(isinstance(x._arg, list) and same_args(x._arg, want), nm + "-args", (inp, repr(x._arg)))
        ids = [i for x in (a, b, d, e) for i in lists_in(x, [])] + [id(given_list)]
        c.ok(len(set(ids)) == len(ids), "shared-list", inp)
        given_list.append("later")
        c.ok(same_args(e._arg, want), "given-list", inp)
        c.ok(len({re.sub(r"@ \d+", "", repr(x)) for x in (a, b, d, e)}) == 1, "repr", (inp, [repr(x) for x in (a, b, d, e)]))
        c.ok(not st.n, "started", (inp, st.n[:3]))


@case("histories", timeout=120)
def _(c):
    """Random growth of a pool of pipelines; none built earlier ever changes."""
    st = Started()
    for it in range(60 if not THOROUGH else 300):
        env = environ.env(exports={"PATH": "/bin"}) if it % 2 else environ.env(interactive=True, exports={"PATH": "/bin"})
        pool = []           # (value, denotation when built, expected args or None)
        trace = []

        def add(v, args=None, word=None):
            pool.append((v, denote(v), args, word))
        for w in c.rng.sample(WORDS, 3):
            add(getattr(env, w), [w], w)
        reds = [redir.Redirect("stdout", "/x"), redir.Redirects(redir.Redirect(5, "/y", os.O_RDONLY))]
        outs = [(r, denote(r)) for r in reds]
        for step in range(25):
            v, _, args, word = c.rng.choice(pool if c.rng.random() < 0.6 else pool[-3:])
            op = c.rng.choice(["attr", "call", "call", "sub", "add", "or", "ror", "lt", "gt", "orself"])
            if op == "attr":
                n = c.rng.choice(WORDS)
                if args is None:
                    continue
                r, a = getattr(v, n), args + [n]
            elif op == "call":
                if args is None:
                    continue
                pos = [c.rng.choice(values(c))() for _ in range(c.rng.choice([0, 0, 1, 2]))]
                kw = kwargs(c)
                r, a = v(*pos, **kw), args + pos + ([kw] if kw else [])
            elif op == "sub":
                o = getattr(env, c.rng.choice("xvf"))
                if args is None:
                    continue
                r, a = v - o, args + ["-" + o._arg[0]]
            elif op == "add":
                o = c.rng.choice(pool)[0]
                r, a = v + o, None
                c.ok(type(r) is group.Group and r.a is v and r.b is o, "group", op)
            elif op in ("or", "gt", "ror", "lt", "orself"):
                if op == "orself":
                    c.ok((v | True) is v, "or-true", op)
                    continue
                kind = c.rng.choice(["pipe", "path", "none", "redirect", "redirects", "function", "list", "bytes"])
                o = {"pipe": lambda: c.rng.choice(pool)[0], "path": lambda: "/tmp/none", "none": lambda: None, "redirect": lambda: reds[0],
                     "redirects": lambda: reds[1], "function": lambda: (lambda x: x), "list": lambda: ["a", "b"], "bytes": lambda: b"/tmp/q"}[kind]()
                a = None
                if op == "or":
                    r = v | o
                elif op == "gt":
                    r = v > o
                elif op == "ror":
                    r = o | v
                else:
                    if isinstance(o, base.Pipeline):
                        continue
                    r = v < o
                left = op in ("ror", "lt")
                if kind == "pipe" and op == "ror":
                    left, v, o = False, o, v        # o | v is o's operator
                if kind in ("path", "none", "redirect", "redirects", "bytes"):
                    c.ok(type(r) is redirect.CmdRedirect and r.pipeline is v, "redirect-of", (op, kind))
                    t = {k: (x.source, x.flag) for k, x in r.cmd_redirects.redirects.items()}
                    d = 0 if left else 1
                    fl = os.O_RDONLY if left else os.O_WRONLY | os.O_CREAT
                    want = {"path": {d: ("/tmp/none", fl)}, "none": {d: ("/dev/null", fl)}, "bytes": {d: (b"/tmp/q", fl)},
                            "redirect": {1: ("/x", os.O_WRONLY | os.O_CREAT)}, "redirects": {5: ("/y", os.O_RDONLY)}}[kind]
                    c.eq(t, want, "redirect-table", (op, kind))
                else:
                    x, y = (r.dst, r.src) if left else (r.src, r.dst)
                    c.ok(type(r) is pipe.Pipe and x is v, "pipe-of", (op, kind))
                    if kind == "pipe":
                        c.ok(y is o, "pipe-other", (op, kind))
                    else:
                        c.ok(type(y) is function.Function and y.__dict__["function"] is o, "pipe-function", (op, kind))
            trace.append((op, repr(a)))
            if a is not None:
                c.ok(type(r) is (cls_of(args[0]) if args else type(r)), "class", (trace[-4:], type(r).__name__))
                c.ok(r is not v and same_args(r._arg, a), "args", (trace[-4:], repr(r._arg)))
            c.ok(r._env is env and not r._started, "fresh", trace[-4:])
            add(r, a, word)
            for v0, d0, a0, w0 in pool:
                c.ok(denote(v0) == d0, "earlier-changed", (trace[-4:], repr(type(v0).__name__), repr(getattr(v0, "_arg", None)) if isinstance(v0, command.BaseCommand) else ""))
            for r0, d0 in outs:
                c.ok(denote(r0) == d0, "redirect-changed", (trace[-4:], repr(r0)))
            ids = []
            for v0, _, a0, _ in pool:
                if a0 is not None:
                    ids.append(id(v0._arg))
            c.ok(len(set(ids)) == len(ids), "shared-list", trace[-4:])
            c.ok(not st.n, "started", (trace[-3:], st.n[:3]))


@case("registry")
def _(c):
    env = environ.env(exports={"PATH": "/bin"})
    before = dict(builtin.BuiltinRegistry.builtins)

    class Named(builtin.Builtin):
        name = "a_name"
    builtin.BuiltinRegistry.register(Named)
    builtin.BuiltinRegistry.register(Named, "other")
    for w in list(before) + ["a_name", "other", "git", "a-name", "Named", "CD", "", "cd ", " cd", "env"]:
        want = Named if w in ("a_name", "other") else before.get(w, command.Command)
        for x in (getattr(env, w), env._(w), env._(w, "x", y=1), command.BaseCommand(env, [w, "z"])):
            c.ok(type(x) is want, "class", (w, type(x).__name__))
    for n, k in {"cd": "CdBuiltin", "bg": "BgBuiltin", "fg": "FgBuiltin", "bashsource": "BashSource", "subshell": "SubShell", "remote": "Remote",
                 "clear_dir_cache": "ClearDirCacheBuiltin"}.items():
        c.eq(type(getattr(env, n)).__name__, k, "standard", n)


main("every spelling and operator against a model of the denoted argument list; all values built earlier re-observed after every step", setup)

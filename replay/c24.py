"""C24 concretely: pipelines shown in every way, their runs counted."""
from common import *


def setup():
    global pieshell, redir, running, Function, Pipeline, builtins_, base
    pieshell = load()
    from pieshell import redir
    from pieshell.pipeline import running, base, builtins as builtins_
    from pieshell.pipeline.base import Pipeline
    from pieshell.pipeline.function import Function
    os.makedirs("inner", exist_ok=True)


COUNT = [0]


def many(name, n):
    """a case repeated n times"""
    def deco(fn):
        @case(name, timeout=600 if THOROUGH else 60)
        def _(c):
            for i in range(n * 6 if THOROUGH else n):
                fn(c)
        return fn
    return deco


class Made(object):
    """random pipelines whose parts leave a mark each time they run"""

    def __init__(self, c, envs):
        self.c, self.rng, self.envs = c, c.rng, envs
        COUNT[0] += 1
        self.id = COUNT[0]
        self.marks, self.never = [], set()

    def mark(self):
        m = "%s/m%d_%d" % (self.c.dir, self.id, len(self.marks))
        self.marks.append(m)
        return m

    def ran(self, m):
        with open(m, "a") as f:
            f.write("x")

    def runs(self):
        n = {}
        for m in self.marks:
            n[m] = 0
            if os.path.exists(m):
                with open(m) as f:
                    n[m] += len(f.read())
        return n

    def env(self):
        return self.rng.choice(self.envs)

    def leaf(self, first, fails=False):
        m = self.mark()
        k = self.rng.random()
        if k < .7 or fails:
            return self.env().sh("-c", "printf x >> %s; %secho out%s" % (m, "" if first else "cat; ", "; exit 3" if fails else ""))
        if k < .8:
            inner = self.leaf(True)
            return self.env().sh("-c", "printf x >> %s; %scat $0" % (m, "" if first else "cat; "), inner)

        def made(f):
            f.__name__ = f.__qualname__ = m
            return f
        args, kw = [], {}
        if self.rng.random() < .5:
            args.append(self.unused())
        if self.rng.random() < .5:
            kw["also"] = self.unused()
        if first:
            def gen():
                self.ran(m)
                yield "f"
            return Function(self.env(), made(lambda stdin, *a, **k: gen()), *args, **kw)

        async def afn(stdin, *a, **k):
            self.ran(m)
            async for line in stdin:
                yield line
        return Function(self.env(), made(afn), *args, **kw)

    def unused(self):
        """a pipeline nobody runs"""
        m = self.mark()
        self.never.add(m)
        return self.env().sh("-c", "printf x >> %s" % m)

    def want(self, n):
        return {m: 0 if m in self.never else n for m in self.marks}

    def pipeline(self, depth=2):
        k = self.rng.random()
        if depth and k < .45:
            p = self.leaf(True)
            for _ in range(self.rng.choice([1, 1, 2])):
                p = p | self.leaf(False)
            return p
        if depth and k < .6:
            return self.pipeline(depth - 1) + self.pipeline(depth - 1)
        if depth and k < .75:
            return self.pipeline(depth - 1) | redir.Redirect(2, "/dev/null")
        if depth and k < .85:
            return self.env().subshell(self.leaf(True))
        return self.leaf(True)


def environments(c, interactive):
    mk = lambda i, d: pieshell.env(exports={"PATH": "/usr/bin:/bin", "HOME": c.dir}, interactive=i, cwd=d)
    if interactive == "mixed":
        return [mk(True, c.dir), mk(False, c.dir), mk(True, c.dir + "/inner")]
    return [mk(interactive, c.dir)]


class Holder(object):
    def __init__(self, *x):
        self.x = x

    def __repr__(self):
        return "<%s>" % ", ".join(repr(x) for x in self.x)


def prompt(x):
    """as the prompt shows it"""
    return type(x).__repr__(x)


SHOWN = {
    "repr(p)": lambda p: repr(p),
    "repr([p, p])": lambda p: repr([p, p]),
    "repr({'x': (p,)})": lambda p: repr({"x": (p,)}),
    "repr(an object that shows p)": lambda p: repr(Holder(p, [Holder(p)])),
    "p._repr()": lambda p: p._repr(),
    "p.__name__": lambda p: p.__name__,
    "repr(echo with p among its arguments)": lambda p: repr(p._env.echo(p, x=p)),
    "repr(function with p among its arguments)": lambda p: repr(Function(p._env, lambda stdin, *a, **k: None, p, x=p)),
    "repr(p + p)": lambda p: repr(p + p),
    "repr(p | redirect)": lambda p: repr(p | redir.Redirect(1, "/dev/null")),
    "repr after a failed one": lambda p: repr([Broken(p)]) and repr(p),
    "repr(subshell)": lambda p: repr(p._env.subshell(p)),
    "repr(remote)": lambda p: repr(p._env.remote("host", p)),
}


class Broken(object):
    def __init__(self, p):
        self.p = p

    def __repr__(self):
        repr(self.p)
        raise RuntimeError("broken repr")


def state():
    return getattr(base.repr_state, "in_repr", 0), getattr(Pipeline._print_state, "env", None)


@many("shown", 150)
def shown(c):
    kind = c.rng.choice([True, True, False, "mixed"])
    m = Made(c, environments(c, kind))
    p = m.pipeline()
    before = m.runs()
    st = state()
    ways = c.rng.sample(sorted(SHOWN), 4)
    if kind is False:
        ways.append("prompt")
    for w in ways:
        try:
            r = prompt(p) if w == "prompt" else SHOWN[w](p)
        except Exception as e:
            c.ok(False, "%s raises" % w, "%r" % (e,))
            continue
        c.eq(m.runs(), before, "%s runs nothing" % w, "interactive: %s" % kind)
        c.ok(isinstance(r, str), "%s is a text" % w, type(r))
        c.eq(state(), st, "%s leaves the printing state" % w, "")
        if w not in ("p.__name__",) and "echo with" not in w and "remote" not in w:
            # (arguments that are pipelines are shown as the file they stand for)
            for x in top(p):
                c.ok(x in r, "%s shows the parts" % w, "%r lacks %r" % (r, x))


def top(p):
    """texts that show the leaves"""
    k = type(p).__name__
    d = p.__dict__
    if "src" in d:
        return top(d["src"]) + top(d["dst"])
    if "pipeline" in d:
        return top(d["pipeline"])
    if "a" in d and "b" in d:
        return top(d["a"]) + top(d["b"])
    if "function" in d:
        return [d["function"].__name__]
    if "_arg" in d and d["_arg"] and d["_arg"][0] == "sh":
        return [repr(d["_arg"][2])]
    return []


@many("at the prompt", 40)
def at_prompt(c):
    m = Made(c, environments(c, True))
    p = m.pipeline()
    r = (p | redir.Redirect(1, "/dev/null"))
    st = state()
    n = c.rng.choice([1, 1, 2])
    for i in range(n):
        got = prompt(r)
        c.eq(got, "", "the prompt shows only what it prints", "")
    c.eq(m.runs(), m.want(n), "the prompt runs it once", "%d times shown" % n)
    c.eq(state(), st, "the printing state", "")
    # what has run
    rp = p._env.last_pipeline
    for x in [rp.pipeline] + [getattr(q, "cmd", None) for q in rp.processes]:
        if x is not None:
            got = prompt(x)
            c.ok(isinstance(got, str) and got, "what has run is shown as a text", repr(got))
    c.ok(repr(rp), "the running pipeline is a text", "")
    prompt(rp)
    c.eq(m.runs(), m.want(n), "showing what has run runs nothing", "")


@many("parts of what runs", 30)
def parts(c):
    m = Made(c, environments(c, True))
    p = m.pipeline()
    rp = (p | redir.Redirect(1, "/dev/null")).run()
    def walk(x):
        d = x.__dict__
        res = [x]
        for k in ("src", "dst", "a", "b", "pipeline"):
            if k in d:
                res += walk(d[k])
        return res
    for x in walk(rp.pipeline):
        prompt(x)
        repr([x])
    asyncio.get_event_loop().run_until_complete(rp.wait())
    for x in walk(rp.pipeline):
        got = prompt(x)
        c.ok(isinstance(got, str) and got, "a text", repr(got))
    c.eq(m.runs(), m.want(1), "showing the parts of what runs runs nothing", "")


@many("errors", 25)
def errors(c):
    m = Made(c, environments(c, c.rng.choice([True, False])))
    p = m.leaf(True, fails=True)
    if c.rng.random() < .6:
        p = p | m.leaf(False)
    p = p | redir.Redirect(1, "/dev/null")
    how = c.rng.choice(["run_interactive", "+", "prompt", "await"])
    if how == "prompt" and not p._env._interactive:
        how = "+"
    err = None
    async def awaiting():
        await p
    try:
        if how == "run_interactive":
            p.run_interactive()
        elif how == "+":
            +p
        elif how == "await":
            asyncio.get_event_loop().run_until_complete(awaiting())
        else:
            prompt(p)
    except running.PipelineFailed as e:
        err = e
    c.ok(err is not None, "%s raises the failure" % how, "")
    if err is not None:
        for i in range(2):
            c.ok("sh" in str(err), "the failure tells about the pipeline", str(err))
        repr([err, err.pipeline, err.pipeline.processes, err.pipeline.failed_processes])
        prompt(err.pipeline)
        for q in err.pipeline.processes:
            prompt(q)
    c.eq(m.runs(), m.want(1), "%s runs it once, telling about its failure runs nothing" % how, "")


@many("suspended", 4)
def suspended(c):
    """stopped by the user: shown or run once, not again"""
    [env] = environments(c, True)
    m = Made(c, [env])
    mark = m.mark()
    p = env.sh("-c", "printf x >> %s; exec sleep 60" % mark) | redir.Redirect(1, "/dev/null")
    loop = asyncio.get_event_loop()

    async def stop():
        for i in range(2000):
            if m.runs()[mark] and running.stop_signal_handler.current_pipeline is not None:
                break
            await asyncio.sleep(.01)
        running.stop_signal_handler.handle_event({"ssi_signo": 20})
    task = loop.create_task(stop())
    how = c.rng.choice(["prompt", "+", "await"])

    async def awaiting():
        await p
    end = None
    try:
        if how == "prompt":
            end = prompt(p)
        elif how == "+":
            +p
        else:
            loop.run_until_complete(awaiting())
    except running.PipelineSuspended:
        end = "suspended"
    c.eq(end, "" if how == "prompt" else "suspended", "%s: being stopped ends the wait" % how, "")
    c.eq(len(env.running_pipelines), 1, "%s: the stopped one is there" % how, "")
    time.sleep(.05)
    for rp in list(env.running_pipelines):
        repr(rp), prompt(rp), prompt(rp.pipeline)
        for q in rp.processes:
            os.kill(q.iohandler.pid, 9)
    c.eq(m.runs(), m.want(1), "%s runs it once" % how, "")
    loop.run_until_complete(asyncio.sleep(.02))


@many("by name", 50)
def by_name(c):
    m = Made(c, environments(c, c.rng.choice([True, False])))
    p = m.pipeline(1)
    how = c.rng.choice(["+", "~", "await", "run_interactive", "list", "str", "bytes", "& None", "async for"])
    loop = asyncio.get_event_loop()
    q = p if how in ("list", "str", "bytes", "async for") else p | redir.Redirect(1, "/dev/null")
    res = None

    async def awaiting():
        return await q

    async def reading():
        return [line async for line in q]
    if how == "+":
        res = +q
    elif how == "~":
        res = ~q
        loop.run_until_complete(res.wait())
    elif how == "await":
        res = loop.run_until_complete(awaiting())
    elif how == "run_interactive":
        res = q.run_interactive()
    elif how == "list":
        res = list(q)
    elif how == "str":
        res = str(q)
    elif how == "bytes":
        res = bytes(q)
    elif how == "async for":
        res = loop.run_until_complete(reading())
    else:
        res = q & None
        loop.run_until_complete(res.wait())
    if isinstance(res, running.RunningPipeline):
        repr(res), prompt(res)
    # (what is only read may be finishing)
    deadline = time.time() + 20
    while m.runs() != m.want(1) and time.time() < deadline and how in ("list", "str", "bytes", "async for"):
        loop.run_until_complete(asyncio.sleep(.05))
    c.eq(m.runs(), m.want(1), "%s runs it once" % how, "")
    c.ok(not any(x._started for x in [p, q]), "the value is not what ran", "")
    prompt(res) if isinstance(res, running.RunningPipeline) else None


@many("builtins", 12)
def started_builtins(c):
    [env] = environments(c, True)
    here = os.getcwd()
    done = []
    saved = builtins_.RunnningFg.__init__
    try:
        which = c.rng.choice(["cd", "bg", "fg", "clear_dir_cache"])

        class Last(object):
            is_running = is_failed = False
            pipeline = None

            def restart(self):
                done.append("bg")

            async def wait(self):
                done.append("fg")
        if which == "cd":
            os.makedirs("inner/inner", exist_ok=True)
            rp = ~env.cd("inner")
            prompt(rp.pipeline), repr(rp), prompt(rp)
            c.eq(env._cwd, c.dir + "/inner", "showing a started cd changes no directory again", "")
        elif which in ("bg", "fg"):
            rp = ~getattr(env, which)(Last())
            loop = asyncio.get_event_loop()
            loop.run_until_complete(asyncio.sleep(.01))
            prompt(rp.pipeline), repr(rp), prompt(rp)
            loop.run_until_complete(asyncio.sleep(.01))
            c.eq(done, [which], "showing a started %s does it no more" % which, "")
        else:
            env._dir_cache = ["x"]
            rp = ~env.clear_dir_cache()
            c.eq(env._dir_cache, None, "clear_dir_cache clears the completions", "")
            env._dir_cache = ["y"]
            prompt(rp.pipeline), repr(rp), prompt(rp)
            c.eq(env._dir_cache, ["y"], "showing a started clear_dir_cache clears nothing", "")
    finally:
        os.chdir(here)


@many("repr always gives a text", 20)
def always(c):
    import threading

    class Base(BaseException):
        pass
    exc = c.rng.choice([ValueError, Base, KeyboardInterrupt, RecursionError, SystemExit])

    class Bad(object):
        def __repr__(self):
            seen.append(getattr(base.repr_state, "in_repr", 0))
            raise exc("no")
    seen = []
    st = state()
    [env] = environments(c, True)
    m = Made(c, [env])
    p = m.leaf(True)
    res = []

    def go():
        try:
            res.append(repr(c.rng.choice([Bad(), [Bad()], Holder(Bad(), p), {"a": Bad()}])))
        except BaseException as e:
            res.append(e)
    if c.rng.random() < .3:
        t = threading.Thread(target=go)
        t.start()
        t.join()
    else:
        go()
    c.ok(isinstance(res[0], str), "repr gives a text", repr(type(res[0])))
    c.ok(all(n >= 1 for n in seen), "within repr", seen)
    c.eq(state(), st, "as before", "")
    c.eq(m.runs(), m.want(0), "nothing is run", "")
    # then the prompt still runs
    got = prompt(p | redir.Redirect(1, "/dev/null"))
    c.eq(m.runs(), m.want(1), "the prompt runs it afterwards", "")


@many("threads", 6)
def threads(c):
    """a repr going on in another thread is not around what this one shows"""
    import threading
    [env] = environments(c, True)
    m = Made(c, [env])
    p, q = m.leaf(True) | redir.Redirect(1, "/dev/null"), m.leaf(True)
    inside, go_on = threading.Event(), threading.Event()

    class Slow(object):
        def __repr__(self):
            inside.set()
            go_on.wait(60)
            return repr(q)
    res = []
    shown = c.rng.choice([lambda: [Slow()], lambda: Function(env, setup, Slow())])()
    t = threading.Thread(target=lambda: res.append(repr(shown)))
    t.start()
    inside.wait(60)
    prompt(p)
    n = m.runs()
    text = repr(p)
    go_on.set()
    t.join()
    c.ok(sum(n.values()) >= 1, "the prompt runs it, whatever another thread does", n)
    c.eq(m.runs(), n, "and the other thread runs nothing", "")
    for r in res + [text]:
        c.ok(isinstance(r, str) and r.count(repr(env)) == 1, "the environment is told to each", (r, res, text))


@many("environments", 20)
def envs(c):
    a, b, _ = environments(c, "mixed")
    a = pieshell.env(exports={"PATH": "/usr/bin:/bin"}, interactive=False, cwd=c.dir)
    other = pieshell.env(exports={"PATH": "/usr/bin:/bin"}, interactive=c.rng.choice([True, False]), cwd=c.dir + "/inner")
    inner = c.rng.choice([a, other])
    p = a.echo("x") | inner.cat("y")
    for f in (repr, prompt):
        r = f(p)
        c.eq(r.count(repr(a)), 1, "its environment is told once", r)
        if inner is other:
            c.ok(r.count(repr(other)) == 1, "and that of the part with another", r)
    bad = Function(a, lambda stdin, *x: None, 1)
    bad.__dict__["_kw"]["z"] = None if c.rng.random() < .5 else object()
    st = state()
    prompt(a.echo("x") | bad)

    class Raises(object):
        def _expand_argument(self, *a):
            raise OSError("no")
    q = a.echo("x")
    type(q)  # a command whose text can not be made
    saved = type(a)._expand_argument
    try:
        type(a)._expand_argument = lambda self, *x: (_ for _ in ()).throw(OSError("no"))
        try:
            prompt(q)
            c.ok(False, "an error in showing is told", "")
        except OSError:
            pass
        c.ok(isinstance(repr(q), str), "repr gives a text", "")
    finally:
        type(a)._expand_argument = saved
    c.eq(state(), st, "the printing state", "")


main("repr of random pipelines, running pipelines and errors, in interactive and other environments, counting every run of every part", setup)

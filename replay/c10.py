"""C10 concretely: random schedules of process ends, waiters, cancellations and stop signals; real pipelines."""
from common import *


def setup():
    global pieshell, running, base, redir, signalio, builtins_, environ, KILLS
    pieshell = load()
    from pieshell import redir, signalio, environ
    from pieshell.pipeline import running, base, builtins as builtins_
    KILLS = []


def no_kill():
    """Signals to process ids are only recorded (the ids are made up)."""
    os.kill = lambda pid, sig: KILLS.append((pid, sig))


class Handler(object):
    """The part of an i/o handler that a function's item uses."""

    def __init__(self):
        self.f = asyncio.get_event_loop().create_future()

    is_running = property(lambda s: not s.f.done())
    exception = property(lambda s: None if not s.f.done() else s.f.exception())

    async def wait(self):
        return await self.f

    def _repr_args(self):
        return []


def make(c, log):
    """(item, kind, end): an item of a random kind and a way to end it."""
    kind = c.rng.choice(["function", "process"])
    cmd = base.Pipeline(pieshell.env)
    cmd._redirects = redir.Redirects()
    if kind == "function":
        h = Handler()
        cls = type("F", (running.RunningFunction,), hooks(log))
        it = cls(cmd, h)
        return it, kind, h
    return make_process(log)


def make_process(log):
    cmd = base.Pipeline(pieshell.env)
    cmd._redirects = redir.Redirects()
    make.pid += 1
    cls = type("P", (running.RunningProcess,), hooks(log))
    it = cls(cmd, make.pid)
    return it, "process", it.iohandler


make.pid = 5000000


def hooks(log):
    def handle_pipeline_finish(self):
        log.append(("finish", self))

    def handle_pipeline_finish_destructive(self):
        log.append(("clean", self))
    return {"handle_pipeline_finish": handle_pipeline_finish, "handle_pipeline_finish_destructive": handle_pipeline_finish_destructive}


def finish(kind, h, fail):
    if kind == "function":
        if fail:
            h.f.set_exception(ValueError("x"))
        else:
            h.f.set_result(None)
    else:
        code, st = {0: (1, 0), 1: (1, 3), 2: (2, 9), 3: (3, 11)}[fail]
        h.handle_event({"ssi_pid": h.pid, "ssi_code": code, "ssi_status": st, "ssi_signo": 17})


class Several(object):
    pass


def pipeline_of(items, env):
    class Fixed(base.Pipeline):
        def __deepcopy__(self, memo={}):
            r = Fixed(self._env)
            return r

        def _run(self, redirects, sess, indentation=""):
            base.Pipeline._run(self, redirects, sess, indentation)
            return list(items)
    return Fixed(env)


async def drain():
    for i in range(8):
        await asyncio.sleep(0)


async def waiter(rp, how):
    try:
        if how == 0:
            await rp.wait()
        else:
            await rp
        return ("ok", None, None)
    except asyncio.CancelledError:
        return ("cancelled", None, None)
    except running.PipelineError as e:
        return (type(e).__name__, e.pipeline, list(e.pipeline.failed_processes))


async def schedule(c, it):
    env = environ.Environment(interactive=it % 2 == 1)
    loop = asyncio.get_event_loop()
    n = c.rng.choice([0, 1, 1, 2, 3, 4, 6])
    log = []
    items = [make(c, log) for i in range(n)]
    trace = ["%d processes, interactive=%s" % (n, env._interactive)]
    fails = {}

    def end(i):
        it_, kind, h = items[i]
        f = c.rng.choice([0, 0, 1]) if kind == "function" else c.rng.choice([0, 0, 1, 2, 3])
        fails[i] = bool(f)
        trace.append("end %d (%s) %s" % (i, kind, "fails %d" % f if f else "ok"))
        finish(kind, h, f)
    early = [i for i in range(n) if c.rng.random() < 0.15]
    for i in early:
        end(i)
    before = list(env.running_pipelines)
    rp = pipeline_of([x[0] for x in items], env).run()
    others = [pipeline_of([make(c, [])[0]], env).run() for i in range(c.rng.randrange(3))]
    waiters = []            # (task, model state)
    suspended = False
    stop = running.stop_signal_handler

    def check(where):
        alive = [i for i in range(n) if i not in fails]
        c.eq(rp.is_running, bool(alive), "is_running", trace)
        c.ok([x for x in rp.running_processes] == [items[i][0] for i in alive], "running_processes", trace)
        bad = [items[i][0] for i in sorted(fails) if fails[i]]
        c.ok(rp.failed_processes == bad, "failed_processes", (trace, len(bad), len(rp.failed_processes)))
        c.eq(rp.is_failed, bool(bad), "is_failed", trace)
        k = sum(1 for x in env.running_pipelines if x is rp)
        c.eq(k, 1 if alive else 0, "listed", trace)
        c.ok([x for x in env.running_pipelines if x is not rp] == others, "others-listed", trace)
        fin = [x for x in log if x[0] == "finish"]
        cl = [x for x in log if x[0] == "clean"]
        if alive:
            c.ok(not log, "completion-early", trace)
        else:
            want = [x[0] for x in items]
            c.ok([x[1] for x in fin] == want and [x[1] for x in cl] == want, "completion-once", (trace, len(fin), len(cl)))
            c.ok(log == fin + cl, "completion-order", trace)
        c.eq(rp.finished, not alive, "finished", trace)
    await drain()
    check("start")
    steps = c.rng.randrange(3, 14)
    for s in range(steps + n):
        alive = [i for i in range(n) if i not in fails]
        op = c.rng.choice(["wait", "wait", "end", "end", "end", "cancel", "stop", "event", "wake"])
        if s >= steps:
            op = "end"
        if op == "end":
            if not alive:
                continue
            k = c.rng.choice([1, 1, 2, len(alive)])
            for i in c.rng.sample(alive, min(k, len(alive))):
                end(i)
        elif op == "wait":
            how = c.rng.randrange(2)
            trace.append("wait")
            t = loop.create_task(waiter(rp, how))
            waiters.append([t, None])
            suspended = False
        elif op == "cancel":
            act = [w for w in waiters if w[1] is None]
            if not act:
                continue
            w = c.rng.choice(act)
            trace.append("cancel a waiter (%d wait)" % len(act))
            await drain()
            w[0].cancel()
            w[1] = ("cancelled", None, None)
        elif op == "stop":
            await drain()
            # the terminal's stop signal is for this pipeline as long as somebody waits for it
            current = env._interactive and any(w[1] is None for w in waiters)
            trace.append("stop signal (current=%s)" % current)
            stop.handle_event({"ssi_signo": 20})
            if current:
                if alive:
                    for w in waiters:
                        if w[1] is None:
                            w[1] = ("PipelineSuspended", rp, None)
                suspended = True
            c.eq(rp.pipeline_suspended, suspended, "suspended-flag", trace)
        elif op == "event":
            pr = [x for i, x in enumerate(items) if x[1] == "process" and i in alive]
            if not pr:
                continue
            x = c.rng.choice(pr)
            code = c.rng.choice([5, 6])
            trace.append("process event %d" % code)
            x[2].handle_event({"ssi_pid": x[2].pid, "ssi_code": code, "ssi_status": 19, "ssi_signo": 17})
        elif op == "wake":
            trace.append("spurious check")
            rp.handle_finish()
        await drain()
        alive = [i for i in range(n) if i not in fails]
        if not alive:
            bad = [items[i][0] for i in sorted(fails) if fails[i]]
            for w in waiters:
                if w[1] is None:
                    w[1] = ("PipelineFailed", rp, bad) if bad else ("ok", None, None)
        check(op)
        for k, (t, m) in enumerate(waiters):
            if m is None:
                c.ok(not t.done(), "waiter-early", (trace, k, t.done() and repr(t.exception() or t.result())))
            elif not t.done():
                c.ok(False, "waiter-not-woken", (trace, k, m[0]))
            else:
                r = t.result() if not t.cancelled() else ("cancelled", None, None)
                c.ok(r[0] == m[0] and r[1] is m[1], "waiter-outcome", (trace, k, r[0], m[0]))
                if m[2] is not None and r[2] is not None:
                    c.ok(r[2] == m[2] or m[2] == rp.failed_processes, "waiter-failures", (trace, k))
    for k, (t, m) in enumerate(waiters):
        if not t.done():
            t.cancel()
    for o in others:
        finish("function", o.processes[0].iohandler, 0) if isinstance(o.processes[0], running.RunningFunction) else \
            o.processes[0].iohandler.handle_event({"ssi_pid": o.processes[0].iohandler.pid, "ssi_code": 1, "ssi_status": 0, "ssi_signo": 17})
    await drain()
    c.ok(list(env.running_pipelines) == [], "nothing-listed", trace)


@case("schedules", timeout=150)
def _(c):
    no_kill()
    loop = asyncio.get_event_loop()
    loop.set_exception_handler(lambda l, x: None)
    for it in range(700 if not THOROUGH else 4000):
        loop.run_until_complete(asyncio.wait_for(schedule(c, it), 20))


@case("schedules2", timeout=250, thorough_only=True)
def _(c):
    no_kill()
    loop = asyncio.get_event_loop()
    loop.set_exception_handler(lambda l, x: None)
    for it in range(4000):
        loop.run_until_complete(asyncio.wait_for(schedule(c, it), 20))


@case("outcomes", timeout=60)
def _(c):
    """every final status a process can have"""
    no_kill()
    env = environ.Environment()

    async def run():
        for code, sts in ((1, range(256)), (2, range(1, 65)), (3, range(1, 65))):
            for st in sts:
                it, kind, h = make_process([])
                rp = pipeline_of([it], env).run()
                h.handle_event({"ssi_pid": h.pid, "ssi_code": code, "ssi_status": st, "ssi_signo": 17})
                await drain()
                bad = not (code == 1 and st == 0)
                c.eq((rp.is_running, rp.is_failed, rp.failed_processes == ([it] if bad else [])), (False, bad, True), "status", (code, st))
                c.eq((it.exit_code, rp.exit_code), (st, st), "exit-status", (code, st))
                c.eq((await waiter(rp, 0))[0], "PipelineFailed" if bad else "ok", "status-outcome", (code, st))
    asyncio.get_event_loop().run_until_complete(asyncio.wait_for(run(), 50))


async def fg_schedule(c, it):
    env = environ.Environment(interactive=it % 2 == 1)
    log = []
    items = [make(c, log) for i in range(c.rng.choice([1, 2]))]
    rp = pipeline_of([x[0] for x in items], env).run()
    explicit = c.rng.random() < 0.5
    got = []

    async def foreground():
        got.append((env.fg(rp) if explicit else env.fg()).run())
        return await waiter(got[0], 0)
    t = asyncio.get_event_loop().create_task(foreground())
    await drain()
    f = got[0]
    c.ok(any(x is f for x in env.running_pipelines) and any(x is rp for x in env.running_pipelines), "fg-listed", it)
    c.ok(not t.done() and f.is_running, "fg-waits", it)
    stop = env._interactive and c.rng.random() < 0.5
    trace = ["stop=%s" % stop]
    if stop:
        running.stop_signal_handler.handle_event({"ssi_signo": 20})
        await drain()
        c.ok(rp.pipeline_suspended, "fg-suspends", trace)
        c.ok(t.done() and t.result()[0] == "PipelineSuspended", "fg-suspended", (trace, t.done() and t.result()[0]))
        c.ok(not any(x is f for x in env.running_pipelines), "fg-not-listed", trace)
        c.ok(any(x is rp for x in env.running_pipelines), "still-listed", trace)
    fl = []
    for x in items:
        r = c.rng.choice([0, 1])
        fl.append(r)
        finish(x[1], x[2], r)
        await drain()
    trace.append(fl)
    c.ok(not rp.is_running and not f.is_running, "fg-ends", trace)
    if not stop:
        c.ok(t.done(), "fg-woken", trace)
        if t.done():
            c.eq(t.result()[0], "PipelineFailed" if any(fl) else "ok", "fg-outcome", trace)
    c.ok(list(env.running_pipelines) == [], "fg-nothing-listed", trace)
    if not t.done():
        t.cancel()


@case("fg", timeout=90)
def _(c):
    no_kill()
    loop = asyncio.get_event_loop()
    loop.set_exception_handler(lambda l, x: None)
    for it in range(60 if not THOROUGH else 600):
        loop.run_until_complete(asyncio.wait_for(fg_schedule(c, it), 20))


async def outcome(rp):
    try:
        await asyncio.wait_for(rp.wait(), 30)
        return None
    except running.PipelineFailed as e:
        return [e.pipeline.processes.index(p) for p in e.pipeline.failed_processes]


@case("real", timeout=150)
def _(c):
    """Real processes and functions: exit statuses, signals, exceptions."""
    env = pieshell.env(exports=dict(os.environ))
    loop = asyncio.get_event_loop()
    loop.set_exception_handler(lambda l, x: None)

    def stage(kind):
        if kind == "true":
            return env.sh("-c", "cat; exit 0"), False
        if kind == "exit":
            return env.sh("-c", "cat; exit %d" % c.rng.randrange(1, 256)), True
        if kind == "kill":
            return env.sh("-c", "cat; kill -%d $$" % c.rng.choice([9, 15, 1])), True
        if kind == "slow":
            return env.sh("-c", "cat; sleep 0.05; exit %d" % (c.rng.randrange(2) * 4)), None

        async def good(stdin):
            async for x in stdin:
                yield x

        async def bad(stdin):
            async for x in stdin:
                yield x
            raise KeyError("bad")
        return (good, False) if kind == "good" else (bad, True)
    for it in range(20 if not THOROUGH else 100):
        kinds = [c.rng.choice(["true", "exit", "kill", "good", "bad"]) for i in range(c.rng.randrange(1, 4))]
        p, want = env.echo("x"), [False]
        for k in kinds:
            s, f = stage(k)
            p = p | s
            want.append(f)
        p = p > redir.Redirect("stdout", "/dev/null", os.O_WRONLY)
        rp = p.run()
        c.ok(any(x is rp for x in env.running_pipelines) == (not rp.finished), "listed", kinds)

        async def go():
            return await asyncio.gather(*[outcome(rp) for i in range(c.rng.choice([1, 1, 3]))])
        got = loop.run_until_complete(go())
        w = [i for i, f in enumerate(want) if f]
        for g in got:
            c.eq(g, w or None, "outcome", kinds)
        c.ok(not any(x is rp for x in env.running_pipelines) and rp.finished and not rp.is_running, "unlisted", kinds)
    c.ok(list(env.running_pipelines) == [], "nothing-listed", len(env.running_pipelines))


@case("end-of-output", timeout=60)
def _(c):
    """Iterating waits for the processes and reports their failure at the end."""
    env = pieshell.env(exports=dict(os.environ))
    for code in (0, 3):
        for b in (0, 1):
            p = env.sh("-c", "echo a; echo b; exec 1>&-; sleep 0.1; exit %d" % code)
            got, exc = [], None
            try:
                if b:
                    got = bytes(p)
                else:
                    for x in p:
                        got.append(x)
            except running.PipelineFailed as e:
                exc = e
            if not (b and code):
                c.eq(got, b"a\nb\n" if b else ["a", "b"], "output", (code, b))
            c.eq(exc is not None, code != 0, "failure", (code, b))
            c.ok(not env.last_pipeline.is_running and list(env.running_pipelines) == [], "ended", (code, b))


main("random schedules against a model of waiters, outcomes and the listing; real pipelines with known outcomes", setup)

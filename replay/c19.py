"""C19 concretely: histories of suspend, resume, waits, terminal stops and process ends with recorded signals; real processes."""
from common import *


def setup():
    global pieshell, running, base, redir, environ, signal, KILLS, GONE, REALKILL
    pieshell = load()
    import signal
    from pieshell import redir, environ
    from pieshell.pipeline import running, base
    KILLS, GONE, REALKILL = [], set(), os.kill


def record():
    """Signals to the made-up process ids are only recorded."""
    def kill(pid, sig):
        KILLS.append((pid, int(sig)))
        if pid in GONE:
            raise ProcessLookupError(3, "No such process")
    os.kill = kill
    os.killpg = lambda pid, sig: kill(-pid, sig)


class Handler(object):
    def __init__(self):
        self.f = asyncio.get_event_loop().create_future()

    is_running = property(lambda s: not s.f.done())
    exception = property(lambda s: None if not s.f.done() else s.f.exception())
    pid = property(lambda s: 4999999)           # nothing may be sent there

    async def wait(self):
        return await self.f

    def _repr_args(self):
        return []


class Item(object):
    pid = 6000000

    def __init__(self, c):
        cmd = base.Pipeline(pieshell.env)
        cmd._redirects = redir.Redirects()
        self.kind = c.rng.choice(["process", "process", "process", "function"])
        if self.kind == "function":
            self.h = Handler()
            self.it = running.RunningFunction(cmd, self.h)
            self.pid = None
        else:
            Item.pid += 1
            self.pid = Item.pid
            self.it = running.RunningProcess(cmd, self.pid)
            self.h = self.it.iohandler
        self.alive = True

    def event(self, code, st):
        self.h.handle_event({"ssi_pid": self.pid, "ssi_code": code, "ssi_status": st, "ssi_signo": 17})

    def end(self, c):
        self.alive = False
        if self.kind == "function":
            if c.rng.random() < 0.3:
                self.h.f.set_exception(ValueError("x"))
            else:
                self.h.f.set_result(None)
        else:
            GONE.add(self.pid)
            self.event(*c.rng.choice([(1, 0), (1, 0), (1, 7), (2, 9), (3, 11)]))


class PL(object):
    """A running pipeline and what is expected of it."""

    def __init__(self, c, env, n):
        self.items = [Item(c) for i in range(n)]
        items = [x.it for x in self.items]

        class Fixed(base.Pipeline):
            def __deepcopy__(self, memo={}):
                return Fixed(self._env)

            def _run(self, redirects, sess, indentation=""):
                base.Pipeline._run(self, redirects, sess, indentation)
                return list(items)
        self.env = env
        self.rp = Fixed(env).run()
        self.suspended = False
        self.waiters = []

    @property
    def pids(self):
        return [x.pid for x in self.items if x.kind == "process" and x.alive]

    @property
    def alive(self):
        return any(x.alive for x in self.items)


async def waiter(rp):
    try:
        await rp.wait()
        return "ok"
    except asyncio.CancelledError:
        return "cancelled"
    except running.PipelineError as e:
        return type(e).__name__


async def drain():
    for i in range(8):
        await asyncio.sleep(0)


CONT, STOP = 18, 19


def known(order, p, w):
    """The known finding (case rewait): of several waits of one pipeline, with
    another pipeline's in between, the first one is forgotten whichever ends."""
    order = [o for o in order if o[1][1] is None]
    if not any(o[1] is w for o in order):
        return False
    right = [o[0] for o in order if o[1] is not w]
    first = [o[0] for o in order].index(p)
    wrong = [o[0] for k, o in enumerate(order) if k != first]
    return any(x is not y for x, y in zip(right, wrong))


async def history(c, it):
    loop = asyncio.get_event_loop()
    envs = [environ.Environment(interactive=c.rng.random() < 0.7) for i in range(2)]
    ps = [PL(c, c.rng.choice(envs), c.rng.choice([0, 1, 1, 2, 3, 5])) for i in range(c.rng.choice([1, 2, 2, 3]))]
    trace = [[(x.kind, x.pid) for x in p.items] + [p.env._interactive] for p in ps]
    order = []          # waits in progress of interactive pipelines, oldest first
    await drain()
    del KILLS[:]

    def kills(want, sub):
        c.ok(sorted(KILLS) == sorted(want), sub, (trace, list(KILLS), want))
        del KILLS[:]

    def flags(sub):
        for p in ps:
            c.eq(p.rp.pipeline_suspended, p.suspended, sub + "-flag", trace)
    for s in range(c.rng.randrange(4, 22)):
        i = c.rng.randrange(len(ps))
        p = ps[i]
        op = c.rng.choice(["suspend", "resume", "wait", "wait", "wait", "end", "vanish", "stop", "stop", "race", "race", "bg", "event", "cancel"])
        trace.append((op, i))
        if op == "suspend":
            p.rp.suspend()
            kills([(x, STOP) for x in p.pids], "suspend")
            # whoever waits goes on as soon as it is woken
            p.suspended = True
            if any(w[1] is None for w in p.waiters):
                p.rp.restart()
                p.suspended = False
                kills([(x, CONT) for x in p.pids], "resume")
        elif op == "resume":
            p.rp.restart()
            p.suspended = False
            kills([(x, CONT) for x in p.pids], "resume")
        elif op == "bg":
            explicit = c.rng.random() < 0.5
            p.env.last_pipeline = c.rng.choice(ps).rp if explicit else p.rp
            b = p.env.bg(p.rp) if explicit else p.env.bg()
            r = b._run(redir.Redirects(), None)
            p.suspended = False
            c.ok(list(r) == [], "bg-starts-nothing", trace)
            kills([(x, CONT) for x in p.pids], "bg")
        elif op == "wait":
            t = loop.create_task(waiter(p.rp))
            await drain()
            p.suspended = False
            kills([(x, CONT) for x in p.pids], "wait-resumes")
            if p.alive:
                w = [t, None]
                p.waiters.append(w)
                if p.env._interactive:
                    order.append((p, w))
            else:
                c.ok(t.done() and t.result() in ("ok", "PipelineFailed"), "wait-ended", trace)
        elif op == "cancel":
            act = [w for w in p.waiters if w[1] is None]
            if act:
                w = c.rng.choice(act)
                if not known(order, p, w):
                    w[0].cancel()
                    w[1] = "cancelled"
        elif op == "vanish":
            # the process is gone; its end has not been delivered yet
            for x in p.items:
                if x.kind == "process" and x.alive and c.rng.random() < 0.5:
                    GONE.add(x.pid)
        elif op == "end":
            act = [x for x in p.items if x.alive]
            if act:
                c.rng.choice(act).end(c)
        elif op == "event":
            act = [x for x in p.items if x.alive and x.kind == "process"]
            if act:
                c.rng.choice(act).event(c.rng.choice([5, 6]), c.rng.choice([CONT, STOP, 20]))
        elif op in ("stop", "race"):
            if op == "race":
                # one of several processes ends shortly before
                act = [x for x in p.items if x.alive]
                if len(act) > 1:
                    c.rng.choice(act).end(c)
                    for k in range(c.rng.randrange(4)):
                        await asyncio.sleep(0)
            order[:] = [o for o in order if o[1][1] is None]
            running.stop_signal_handler.handle_event({"ssi_signo": 20})
            want = []
            if order:
                q = order[-1][0]
                q.suspended = True
                n = 0
                for w in q.waiters:
                    if w[1] is None:
                        w[1] = "PipelineSuspended"
                        n += 1
                # every waiter stops the pipeline it no longer waits for
                want = [(x, STOP) for x in q.pids] * n
            flags("stop")
            await drain()
            kills(want, "stop")
            order[:] = [o for o in order if o[1][1] is None]
        await drain()
        for q in ps:
            if not q.alive:
                for w in q.waiters:
                    if w[1] is None:
                        w[1] = "ended"
            for w in q.waiters:
                if w[1] is None:
                    c.ok(not w[0].done(), "still-waits", trace)
                elif not w[0].done():
                    c.ok(False, "woken", (trace, w[1]))
                elif w[1] == "ended":
                    c.ok(w[0].result() in ("ok", "PipelineFailed"), "outcome", (trace, w[0].result()))
                else:
                    c.eq(w[0].result() if not w[0].cancelled() else "cancelled", w[1], "outcome", trace)
        order[:] = [o for o in order if o[1][1] is None]
        kills([], "nothing-else")
        flags("after")
    for q in ps:
        for w in q.waiters:
            if not w[0].done():
                w[0].cancel()
        for x in q.items:
            if x.alive:
                x.end(c)
    await drain()
    c.ok(running.stop_signal_handler.current_pipeline is None, "nothing-waited-for", trace)
    del KILLS[:]


@case("histories", timeout=200)
def _(c):
    record()
    loop = asyncio.get_event_loop()
    loop.set_exception_handler(lambda l, x: None)
    for it in range(700 if not THOROUGH else 8000):
        loop.run_until_complete(asyncio.wait_for(history(c, it), 20))


def state(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0]
    except (OSError, IndexError):
        return None


async def reach(pid, want, t=5.0):
    for i in range(int(t * 100)):
        if (state(pid) == "T") == want:
            return True
        await asyncio.sleep(0.01)
    return False


async def real(c, n):
    env = pieshell.env(exports=dict(os.environ), interactive=True)
    sent = []

    def kill(pid, sig):
        sent.append((pid, int(sig)))
        if pid not in mine:
            return          # recorded only: nothing but our own children may be signalled
        return REALKILL(pid, sig)
    os.kill = kill
    os.killpg = lambda pid, sig: sent.append((-pid, int(sig)))
    p = env.sh("-c", "read x; exit 0")
    for i in range(n - 1):
        p = p | env.sh("-c", "cat; exit 0")
    q = (env.sh("-c", "read x; exit 0")).run([redir.Redirect("stdin", redir.PIPE)])
    rp = p.run([redir.Redirect("stdin", redir.PIPE)])
    mine = [x.pid for x in rp.processes] + [x.pid for x in q.processes]
    pids = [x.pid for x in rp.processes]
    other = q.processes[0].pid
    for rnd in range(c.rng.choice([1, 2, 3])):
        t = asyncio.get_event_loop().create_task(waiter(rp))
        await asyncio.sleep(0.02)
        running.stop_signal_handler.handle_event({"ssi_signo": 20})
        await asyncio.sleep(0)
        for pid in pids:
            c.ok(await reach(pid, True), "real-stopped", (n, rnd))
        await asyncio.sleep(0.02)
        c.ok(t.done() and t.result() == "PipelineSuspended", "real-outcome", (n, rnd))
        c.ok(state(other) not in ("T", None), "real-other", (n, rnd))
        c.ok(rp.is_running, "real-running", (n, rnd))
        how = c.rng.choice(["bg", "wait", "restart"])
        if how == "bg":
            env.bg(rp).run()
        elif how == "restart":
            rp.restart()
        else:
            t = asyncio.get_event_loop().create_task(waiter(rp))
            await asyncio.sleep(0)
        for pid in pids:
            c.ok(await reach(pid, False), "real-resumed", (n, rnd, how))
        c.ok(rp.is_running, "real-running", (n, rnd))
        if how == "wait":
            t.cancel()
            await asyncio.sleep(0)
    c.ok(all(x[0] in pids for x in sent), "real-only-those", (sent, pids))
    os.kill = REALKILL
    for pid in mine:
        if state(pid) is not None:
            REALKILL(pid, 9)
    for r in (rp, q):
        try:
            await asyncio.wait_for(r.wait(), 10)
        except running.PipelineError:
            pass
    c.ok(not rp.is_running and not q.is_running, "real-ended", n)


@case("rewait", timeout=60)
def _(c):
    """two waits of one pipeline with another's wait in between, the last one cancelled: then the other is the one waited for"""
    record()
    loop = asyncio.get_event_loop()
    loop.set_exception_handler(lambda l, x: None)

    async def go():
        env = environ.Environment(interactive=True)
        a, b = PL(c, env, 1), PL(c, env, 1)
        t = []
        for p in (a, b, a):
            t.append(loop.create_task(waiter(p.rp)))
            await drain()
        t[2].cancel()
        await drain()
        running.stop_signal_handler.handle_event({"ssi_signo": 20})
        got = a.rp.pipeline_suspended, b.rp.pipeline_suspended
        for p in (a, b):
            for x in p.items:
                x.end(c)
        await drain()
        for x in t:
            x.cancel()
        await drain()
        c.eq(got, (False, True), "innermost", "wait a, wait b, wait a, cancel the last, terminal stop: a, b suspended")
    loop.run_until_complete(asyncio.wait_for(go(), 60))


@case("real", timeout=150)
def _(c):
    loop = asyncio.get_event_loop()
    loop.set_exception_handler(lambda l, x: None)
    for n in (1, 2, 3):
        loop.run_until_complete(asyncio.wait_for(real(c, n), 60))


main("histories of suspend, resume, bg, waits, cancellations, terminal stops, vanishing and ending processes over several pipelines with "
     "recorded signals: signals sent, marks, outcomes of the waiters; real pipelines stopped and resumed, states read from /proc", setup)

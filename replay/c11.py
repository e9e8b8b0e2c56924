"""C11 concretely: all wait statuses, random batches and handler tables, real children."""
from common import *

import signal


def setup():
    """In every case's own process: the signal descriptor is per process."""
    global pieshell, signalio, signalutils, manager_asyncio, manager_signalfd, H
    pieshell = load()
    from pieshell import signalio
    from pieshell.signalio import signalutils, manager_asyncio
    try:
        from pieshell.signalio import manager_signalfd
    except Exception:
        manager_signalfd = None
    H = type("H", (HBase, signalio.SignalHandler), {})


class Kernel(object):
    """Scripted os.waitpid."""

    def __init__(self, changes, end=0):
        self.changes, self.end, self.flags = list(changes), end, []

    def waitpid(self, pid, flags):
        self.flags.append((pid, flags))
        if self.changes:
            return self.changes.pop(0)
        if self.end:
            raise ChildProcessError(errno.ECHILD, "No child processes")
        return (0, 0)


def expect(pid, st):
    if st == 0xffff:
        code, status = 6, 0
    elif st & 0xff == 0x7f:
        code, status = 5, st >> 8
    elif st & 0x7f == 0:
        code, status = 1, st >> 8
    elif st & 0x80:
        code, status = 3, st & 0x7f
    else:
        code, status = 2, st & 0x7f
    return {"ssi_signo": int(signal.SIGCHLD), "ssi_pid": pid, "ssi_code": code, "ssi_status": status}


STATUSES = [x << 8 for x in range(256)] + [s for s in range(1, 127)] + [s | 0x80 for s in range(1, 127)] + \
    [(s << 8) | 0x7f for s in range(1, 127)] + [0xffff]
real_waitpid = os.waitpid


def with_kernel(k, fn):
    os.waitpid = k.waitpid
    try:
        return fn()
    finally:
        os.waitpid = real_waitpid


def brief(d):
    return {k: d[k] for k in ("ssi_signo", "ssi_pid", "ssi_code", "ssi_status")}


@case("decoding")
def _(c):
    for st in STATUSES:
        for end in (0, 1):
            k = Kernel([(77, st)], end)
            got = with_kernel(k, lambda: [brief(x) for x in signalutils.get_sigchlds()])
            c.eq(got, [expect(77, st)], "status", st)
            c.ok(all(p == -1 and f & os.WNOHANG and f & os.WUNTRACED and f & os.WCONTINUED for p, f in k.flags), "flags", k.flags)
    for n in range(150):
        seq = [(c.rng.randrange(1, 6), c.rng.choice(STATUSES)) for _ in range(c.rng.choice([0, 1, 2, 5, 40]))]
        got = with_kernel(Kernel(seq, c.rng.randrange(2)), lambda: [brief(x) for x in signalutils.get_sigchlds()])
        c.eq(got, [expect(*x) for x in seq], "batch", seq)
    # names for display never change the event itself
    for st in STATUSES:
        d = with_kernel(Kernel([(5, st)]), lambda: list(signalutils.get_sigchlds())[0])
        before = dict(d)
        signalutils.siginfo_to_names(d)
        c.eq(d, before, "names", st)


class FakeInfo(object):
    def __init__(self, **kw):
        for n in ("signo", "errno", "code", "pid", "uid", "fd", "tid", "band", "overrun", "trapno", "status", "int", "ptr", "utime", "stime", "addr"):
            setattr(self, "ssi_" + n, kw.get(n, 0))


def managers():
    out = [manager_asyncio]
    if manager_signalfd:
        out.append(manager_signalfd)
    return out


class HBase(object):
    """Records its events, may deregister itself or register another."""

    def __init__(self, mgr, filter, log, once=False, spawn=None):
        self.filter, self.mgr, self.log, self.once, self.spawn, self.gone = filter, mgr, log, once, spawn, False
        mgr.register(self)

    def handle_event(self, event):
        self.log.append((self, event))
        if self.once:
            self.gone = True
            self.mgr.deregister(self)
        if self.spawn is not None:
            s, self.spawn = self.spawn, None
            H(self.mgr, s, self.log)


@case("dispatch")
def _(c):
    for n in range(300):
        for mod in managers():
            m = object.__new__(mod.SignalManager)
            m.signal_handlers, m.mask, m.fd, m.destroyed, m.enabled, m.usage = {}, [], -1, False, True, None
            log = []
            pids = list(range(1, c.rng.choice([2, 4, 8])))
            hs = {}
            for p in pids:
                if c.rng.random() < .8:
                    hs[p] = H(m, {"ssi_pid": p}, log, c.rng.random() < .3, {"ssi_pid": 1000 + p} if c.rng.random() < .2 else None)
            stop = H(m, {"ssi_signo": int(signal.SIGTSTP)}, log)
            both = H(m, {"ssi_signo": int(signal.SIGCHLD), "ssi_pid": 3}, log)
            notes = []          # (signo, batch)
            for _ in range(c.rng.choice([1, 1, 2, 3])):
                if c.rng.random() < .7:
                    notes.append((int(signal.SIGCHLD), [(c.rng.choice(pids + [99]), c.rng.choice(STATUSES)) for _ in range(c.rng.choice([0, 1, 2, 6]))]))
                else:
                    notes.append((int(signal.SIGTSTP), None))
            inp = {"manager": mod.__name__, "handlers": {p: h.once for p, h in hs.items()}, "notifications": notes}
            # expected
            live = dict(hs)
            want = {id(h): [] for h in list(hs.values()) + [stop, both]}
            for signo, batch in notes:
                if batch is None:
                    want[id(stop)].append({"ssi_signo": signo})
                else:
                    for p, st in batch:
                        if p in live:
                            want[id(live[p])].append(expect(p, st))
                            if live[p].once:
                                del live[p]
                        if p == 3:
                            want[id(both)].append(expect(p, st))
            try:
                if mod is manager_asyncio:
                    for signo, batch in notes:
                        with_kernel(Kernel(batch or []), lambda: m.handle_event(signo))
                else:
                    import signalfd
                    queue = list(notes)
                    real = signalfd.read_siginfo

                    def fake(fd):
                        if not queue:
                            raise OSError(errno.EAGAIN, "again")
                        signo, batch = queue.pop(0)
                        os.waitpid = Kernel(batch or []).waitpid
                        return FakeInfo(signo=signo, pid=batch[0][0] if batch else 4242, code=1)
                    mod.signalfd.read_siginfo = fake
                    try:
                        with_kernel(Kernel([]), lambda: m.handle_event(select.POLLIN))
                    finally:
                        mod.signalfd.read_siginfo = real
                    c.ok(not queue, "drained", inp)
            except Exception:
                c.ok(False, "exception", {"input": inp, "trace": traceback.format_exc()[-600:]})
                continue
            for h in list(hs.values()) + [stop, both]:
                got = [{k: e[k] for k in w} if w else e for e, w in zip([e for x, e in log if x is h], want[id(h)] + [None] * 99)]
                c.ok(got == want[id(h)], "delivered", {"input": inp, "handler": h.filter, "got": repr(got)[:400], "expected": want[id(h)]})
            c.eq(sorted(map(id, m.signal_handlers.values())),
                 sorted([id(h) for h in live.values()] + [id(stop), id(both)] + [id(h) for h in m.signal_handlers.values() if h.filter.get("ssi_pid", 0) >= 1000]),
                 "table", inp)
    # filters: all fields must agree
    for mod in managers():
        m = object.__new__(mod.SignalManager)
        for n in range(100):
            info = {"a": c.rng.randrange(2), "b": c.rng.randrange(2), "c": c.rng.randrange(2)}
            flt = {k: c.rng.randrange(2) for k in c.rng.sample("abc", c.rng.randrange(4))}
            c.eq(bool(m.match_signal(info, flt)), all(info[k] == v for k, v in flt.items()), "match", (info, flt))
            f2 = dict(reversed(list(flt.items())))
            c.eq(m.filter_to_key(flt), m.filter_to_key(f2), "key", flt)


@case("process handler")
def _(c):
    for n in range(300):
        pid = 10 ** 7 + n       # beyond pid_max: no such process
        h = signalio.ProcessSignalHandler(pid)
        mgr = signalio.manager.get_signal_manager()
        seq = [(pid, c.rng.choice([s for s in STATUSES if s & 0xff == 0x7f])) for _ in range(c.rng.randrange(4))] + \
            [(pid, 0xffff)] * c.rng.randrange(2)
        c.rng.shuffle(seq)
        ok = h.is_running and h.last_event is None
        for p, st in seq:
            e = expect(p, st)
            h.handle_event(e)
            ok = ok and h.is_running and h.last_event is e and any(x is h for x in mgr.signal_handlers.values())
        st = c.rng.choice([s for s in STATUSES if s != 0xffff and s & 0xff != 0x7f])
        e = expect(pid, st)
        h.handle_event(e)
        ok = ok and not h.is_running and h.last_event is e and h.exception is None and not any(x is h for x in mgr.signal_handlers.values())
        got = asyncio.get_event_loop().run_until_complete(h.wait())
        c.ok(ok and got is e, "life", {"changes": seq, "final": st})


@case("asyncio manager registers each signal")
def _(c):
    class Loop(object):
        def __init__(self):
            self.h = {}

        def add_signal_handler(self, signo, cb, *a):
            self.h[signo] = (cb, a)
    real = manager_asyncio.asyncio.get_event_loop
    for mask in ([signal.SIGCHLD, signal.SIGTSTP], [signal.SIGTSTP, signal.SIGCHLD], [signal.SIGUSR1], [1, 2, 3], None):
        lp = Loop()
        manager_asyncio.asyncio.get_event_loop = lambda: lp
        try:
            m = manager_asyncio.SignalManager() if mask is None else manager_asyncio.SignalManager(mask)
        finally:
            manager_asyncio.asyncio.get_event_loop = real
        want = mask if mask is not None else [signal.SIGCHLD, signal.SIGTSTP]
        c.eq(sorted(lp.h), sorted(want), "registered", mask)
        got = []
        m.handle_event = got.append
        for s in sorted(lp.h):
            cb, a = lp.h[s]
            cb(*a)
        c.eq(got, sorted(lp.h), "number", mask)


@case("real children", timeout=120)
def _(c):
    env = pieshell.env
    loop = asyncio.get_event_loop()
    specs = [("exit %d" % x, 1, x) for x in (0, 1, 2, 77, 127, 128, 255)] + [("kill -%d $$; sleep 5" % s, None, s) for s in (1, 2, 9, 10, 15)] + \
        [("kill -STOP $$; exit 7", 1, 7)]
    for rnd in range(3):
        pick = [c.rng.choice(specs) for _ in range(8)]
        runs = [pieshell.Command(env, ["sh", "-c", s[0]]) for s in pick]

        async def go():
            rs = [await start(r) for r in runs]
            while any(p.is_running for r in rs for p in r.processes):
                for r in rs:
                    for p in r.processes:
                        e = p.iohandler.last_event
                        if p.is_running and e and e["ssi_code"] == 5:
                            try:
                                os.kill(p.iohandler.pid, signal.SIGCONT)
                            except ProcessLookupError:
                                pass
                await asyncio.sleep(.01)
            return rs

        async def start(r):
            x = r.run()
            return await x if asyncio.iscoroutine(x) else x
        rs = loop.run_until_complete(asyncio.wait_for(go(), 60))
        for s, r in zip(pick, rs):
            e = r.processes[0].iohandler.last_event
            want = (1, s[2]) if s[1] == 1 else (2, s[2])
            got = (e["ssi_code"], e["ssi_status"])
            c.ok(got == want or (want[0] == 2 and got == (3, s[2])), "outcome", {"script": s[0], "got": got, "expected": want})
            c.eq(e["ssi_pid"], r.processes[0].iohandler.pid, "own", s[0])
            c.eq(r.processes[0].exit_code, s[2], "exit_code", s[0])


main("all wait statuses the kernel produces, random batches over random handler tables for both managers, handlers that come and go, "
     "real children ending in many ways; non-trivial: every evaluation compares delivered events", setup)

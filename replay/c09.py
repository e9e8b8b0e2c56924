"""C09 concretely: random item sequences from every kind of source, written to
pipes read at different speeds, with extra events, short writes and failures."""
from common import *


def setup():
    global pieshell, iterio, redir, function, running, asyncutils
    pieshell = load()
    from pieshell import iterio, redir
    from pieshell.pipeline import function, running
    from pieshell.utils import asyncutils
    asyncio.get_event_loop().set_exception_handler(lambda loop, ctx: None)


def run(co, timeout=20):
    return asyncio.get_event_loop().run_until_complete(asyncio.wait_for(co, timeout))


class Val(object):
    def __init__(self, n):
        self.n = n

    def __str__(self):
        return "value %s \u20ac" % self.n

    def __repr__(self):
        return "<Val>"

    def __bytes__(self):
        return b"wrong"


class Boom(Exception):
    pass


class BadStr(object):
    def __init__(self, exc):
        self.exc = exc

    def __str__(self):
        raise self.exc


def value(rng):
    k = rng.randrange(16)
    return [None, b"", b"raw\xff\x00", "", "text", "\u00e5\u20ac\U0001f600", "a\nb", 0, 7, -3.5, True, Val(rng.randrange(9)), ["x", 1], ("t",),
            b"x" * rng.choice([10, 70000]), "y" * rng.choice([10, 5000])][k]


def expect(vals):
    out = b""
    for v in vals:
        if v is None:
            continue
        out += (v if isinstance(v, bytes) else v.encode("utf-8") if isinstance(v, str) else str(v).encode("utf-8")) + b"\n"
    return out


class AIter(object):
    """An asynchronous iterable that is not an iterator."""

    def __init__(self, gen):
        self.gen, self.begun = gen, 0

    def __aiter__(self):
        self.begun += 1
        return self.gen()


class Counting(object):
    """An iterator that knows how often it was asked after its end."""

    def __init__(self, vals, exc):
        self.vals, self.exc, self.after, self.ended = list(vals), exc, 0, False

    def __iter__(self):
        return self

    def __next__(self):
        if self.vals:
            return self.vals.pop(0)
        if self.ended:
            self.after += 1
        self.ended = True
        if self.exc:
            raise self.exc
        raise StopIteration


def sources(rng, vals, exc):
    """(kind, thing): things that produce vals, then the exception or the end."""
    def gen():
        for v in vals:
            yield v
        if exc:
            raise exc

    async def agen():
        for v in vals:
            for _ in range(rng.randrange(3)):
                await asyncio.sleep(0)
            yield v
        if exc:
            raise exc

    def cogen():
        async def co(v):
            for _ in range(rng.randrange(4)):
                await asyncio.sleep(0)
            return v
        for v in vals:
            yield co(v) if rng.random() < .7 else v
        if exc:
            async def bad():
                await asyncio.sleep(0)
                raise exc
            yield bad()
    kinds = [("generator", lambda: gen()), ("agen", lambda: agen()), ("cogen", lambda: cogen()), ("aiterable", lambda: AIter(agen)),
             ("counting", lambda: Counting(vals, exc))]
    if not exc:
        kinds += [("list", lambda: list(vals)), ("tuple", lambda: tuple(vals)), ("iter", lambda: iter(list(vals)))]
    if not exc and len(vals) == 1 and not hasattr(vals[0], "__iter__"):
        kinds.append(("plain", lambda: vals[0]))
    if len(vals) == 1 or exc and not vals:
        async def co():
            await asyncio.sleep(0)
            if exc and not vals:
                raise exc
            return vals[0]
        if len(vals) == 1 and not exc or exc and not vals:
            kinds.append(("coroutine", lambda: co()))
    kind, mk = rng.choice(kinds)
    return kind, mk()


class Closes(object):
    """Counts closes of one descriptor, and writes to it after that."""

    def __enter__(self):
        self.fd, self.n, self.late = None, 0, 0
        self.rc, self.rw = os.close, os.write

        def close(fd):
            if fd == self.fd:
                self.n += 1
                if self.n > 1:
                    return
            self.rc(fd)

        def write(fd, b):
            if fd == self.fd and self.n:
                self.late += 1
            return self.rw(fd, b)
        os.close, os.write = close, write
        return self

    def __exit__(self, *a):
        os.close, os.write = self.rc, self.rw


async def collect(r, rng, slow):
    """Everything read from r."""
    out = []
    loop = asyncio.get_event_loop()
    os.set_blocking(r, False)
    while True:
        f = loop.create_future()
        loop.add_reader(r, lambda: f.done() or f.set_result(None))
        await f
        loop.remove_reader(r)
        if slow:
            for _ in range(rng.randrange(20)):
                await asyncio.sleep(0)
        b = os.read(r, rng.choice([1, 100, 65536]) if slow else 65536)
        if not b:
            break
        out.append(b)
    return b"".join(out)


@case("handlers", 100)
def _(c):
    rng = c.rng
    for k in range(400 if THOROUGH else 130):
        vals = [v for v in (value(rng) for _ in range(rng.choice([0, 1, 2, 4, 8]))) if rng.random() < .9]
        line = rng.random() < .5
        items = [v if v is None or isinstance(v, bytes) else str(v).encode() for v in vals]
        exc = rng.choice([None, None, Boom("x"), asyncio.CancelledError()])
        slow = rng.random() < .4 and not any(len(i or b"") > 60000 for i in items)
        nonblock = rng.random() < .3

        async def go():
            with Closes() as cl:
                r, w = os.pipe()
                if nonblock:
                    os.set_blocking(w, False)
                    fcntl.fcntl(w, 1031, 4096)
                else:
                    fcntl.fcntl(w, 1031, 1 << 20)
                cl.fd = w
                kind, thing = sources(rng, items, exc) if items or exc else ("list", [])
                h = (iterio.LineOutputHandler if line else iterio.OutputHandler)(w, thing if kind not in ("plain", "coroutine") else iter([items[0]] if items else []))
                if kind in ("plain", "coroutine"):
                    want_exc = None
                else:
                    want_exc = exc

                async def spurious():
                    for _ in range(rng.randrange(8)):
                        await asyncio.sleep(0)
                        h.handle_event(4)
                sp = asyncio.ensure_future(spurious())
                out = await asyncio.wait_for(collect(r, rng, slow), 10)
                await sp
                for _ in range(5):
                    h.handle_event(4)
                    await asyncio.sleep(0)
                got = None
                try:
                    got = await asyncio.wait_for(h.wait(), 20)
                except BaseException as e:
                    got = e
                os.close(r)
                return kind, out, got, want_exc, cl.n, cl.late, h.is_running, h.exception, getattr(thing, "after", 0), getattr(thing, "begun", 1)
        kind, out, got, want, n, late, running, hexc, after, begun = run(go())
        inp = (kind, [repr(i)[:30] for i in items], repr(exc), line, slow, nonblock)
        src = items[:1] if kind in ("plain", "coroutine") else items
        c.eq(out, b"".join(i + (b"\n" if line else b"") for i in src if i is not None), "written", inp)
        c.ok(got is want or isinstance(want, asyncio.CancelledError) and isinstance(got, type(want)), "outcome", (inp, repr(got), repr(want)))
        c.ok(hexc is want and not running, "exception", (inp, repr(hexc)))
        c.eq((n, late, after, begun), (1, 0, 0, 1), "closed-once-nothing-later", inp)


@case("closed output", 60)
def _(c):
    """The reader goes away, or the output is destroyed, while items remain."""
    for k in range(80):
        n = c.rng.randrange(6)
        line = c.rng.random() < .5
        how = c.rng.choice(["reader", "destroy", "destroy-exc"])
        extra = c.rng.randrange(1, 4)

        async def go():
            with Closes() as cl:
                r, w = os.pipe()
                cl.fd = w
                taken = []

                def gen():
                    for i in range(1000):
                        taken.append(i)
                        yield b"item"
                h = (iterio.LineOutputHandler if line else iterio.OutputHandler)(w, gen())
                while len(taken) < n:
                    await asyncio.sleep(0)
                boom = Boom("destroyed")
                if how == "reader":
                    os.close(r)
                else:
                    h.destroy(*([boom] if how == "destroy-exc" else []))
                seen = len(taken)
                for _ in range(6):
                    for _ in range(extra):
                        h.handle_event(4)
                    await asyncio.sleep(0)
                    if h.destroyed and how == "reader":
                        how2 = len(taken)
                for _ in range(5):
                    await asyncio.sleep(0)
                again = None
                try:
                    h.destroy(Boom("again"))
                    h.destroy()
                except Exception as e:
                    again = repr(e)
                try:
                    got = await asyncio.wait_for(h.wait(), 20)
                except BaseException as e:
                    got = e
                if how != "reader":
                    os.close(r)
                return len(taken) - seen, got, boom, cl.n, cl.late, again
        more, got, boom, nclose, late, again = run(go())
        inp = (how, n, line, extra)
        if how == "reader":
            c.ok(isinstance(got, BrokenPipeError) and more == 1, "fails-with-broken-pipe", (inp, repr(got), more))
        else:
            c.ok(got is (boom if how == "destroy-exc" else None) and more == 0, "outcome-stays", (inp, repr(got), more))
        c.eq((nclose, late, again), (1, 0, None), "closed-once-nothing-later", inp)


@case("stages", 100)
def _(c):
    rng = c.rng
    env = pieshell.env(c.dir)
    for k in range(160 if THOROUGH else 60):
        vals = [value(rng) for _ in range(rng.choice([0, 1, 1, 2, 5]))]
        exc = rng.choice([None, None, None, Boom("x"), asyncio.CancelledError()])
        bad = exc is None and rng.random() < .15
        kind, _t = None, None
        src_vals = vals
        if bad:
            exc = Boom("str")
            src_vals = vals + [BadStr(exc), "never"]
            kind, thing = sources(rng, src_vals, None)
        else:
            kind, thing = sources(rng, vals, exc)
        form = rng.choice(["direct", "function", "method", "lambda"])
        if kind in ("plain", "coroutine") and form == "direct":
            form = "function"
        calls = []
        if form == "direct":
            stage = thing
            if not (hasattr(stage, "__iter__") or hasattr(stage, "__next__")):
                stage = function.Function(env, stage)
        elif form == "method":
            class M(object):
                def meth(self, inp):
                    calls.append(inp)
                    return thing
            stage = M().meth
        else:
            def stage(inp):
                calls.append(inp)
                return thing
        inp = (kind, form, [repr(i)[:30] for i in src_vals], repr(exc))

        async def go():
            if form == "direct":
                p = (stage | env.cat()).run([redir.Redirect("stdout", redir.STRING)])
            else:
                p = (env.true() | stage | env.cat()).run([redir.Redirect("stdout", redir.STRING)])
            try:
                await p.wait()
                r = None
            except BaseException as e:
                r = e
            return p, r
        p, r = run(go())
        c.eq(p.processes[-1].output_content[1],
             expect(vals).decode("utf-8", "replace").replace("\r\n", "\n"), "written", inp)
        fn = [q for q in p.processes if isinstance(q, running.RunningFunction)]
        if exc is None:
            c.ok(r is None, "succeeds", (inp, repr(r)))
        else:
            c.ok(isinstance(r, pieshell.PipelineFailed), "fails", (inp, repr(r)))
            c.ok(len(fn) == 1 and fn[0].exception is exc and p.failed_processes == fn, "with-that-exception", (inp, repr(fn[0].exception)))
        if form != "direct":
            c.eq(len(calls), 1, "called-once", inp)


@case("input to output", 60)
def _(c):
    env = pieshell.env(c.dir)

    def up(inp, suffix="", n=1):
        async def g():
            async for l in inp:
                for _ in range(n):
                    yield l.upper() + suffix
        return g()

    async def go(p):
        return [l async for l in p]
    F = function.Function
    for k in range(15):
        lines = ["".join(c.rng.choice("ab\u00e5 ") for _ in range(c.rng.randrange(9))) for _ in range(c.rng.randrange(6))]
        n = c.rng.choice([1, 2])
        got = run(go(list(lines) | F(env, up, "!", n=n) | F(env, up) | env.cat()))
        c.eq(got, [l.upper() + "!" for l in lines for _ in range(n)], "lines", lines)
    big = ["z" * 100 + str(i) for i in range(2000)]
    c.eq(run(go(list(big) | env.cat() | F(env, up) | env.cat())), [l.upper() for l in big], "long", len(big))
    # pause: nothing is written while an item is awaited, later items follow
    async def slow(inp):
        return None
    ev = []

    def paused(inp):
        async def g():
            yield "a"
            await asyncio.sleep(0.05)
            ev.append("slept")
            yield "b"
        return g()
    c.eq(run(go(env.true() | paused | env.cat())), ["a", "b"], "paused")
    # to a file and to nothing
    async def tofile(t):
        p = (list("xyz") | F(env, up) | t).run()
        await p.wait()
    for t in (os.path.join(c.dir, "o"), None):
        run(tofile(t))
    c.eq(open(os.path.join(c.dir, "o")).read(), "X\nY\nZ\n", "file")


main("random sequences of None, bytes, strings, numbers, objects from lists, generators, coroutines, asynchronous generators and iterables, "
     "with and without an exception, cancellation or failing conversion; blocking and non-blocking pipes, slow readers, spurious events", setup)

"""C08 concretely: random byte streams, written in random pieces, read while they arrive."""
from common import *


def setup():
    global pieshell, iterio, redir
    pieshell = load()
    from pieshell import iterio, redir
    asyncio.get_event_loop().set_exception_handler(lambda loop, ctx: None)


def run(co, timeout=30):
    return asyncio.get_event_loop().run_until_complete(asyncio.wait_for(co, timeout))


def stream(rng):
    """Bytes of valid UTF-8 text."""
    out = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
        k = rng.randrange(8)
        if k == 0:
            l = ""
        elif k == 1:
            l = "x" * rng.choice([1, 1022, 1023, 1024, 1025, 2047, 2048, 5000])
        elif k == 2:
            l = "\u00e5\u00e4\u00f6\u20ac\U0001f600" * rng.choice([1, 3, 200])
        elif k == 3:
            l = "\r"
        elif k == 4:
            l = "a\x00b\x0b\x0c\x1c\x85\u2028c"
        elif k == 5:
            l = "  lead and trail \t "
        else:
            l = "".join(rng.choice("ab\u00e5\u20ac ") for _ in range(rng.randrange(12)))
        out.append(l)
    s = "\n".join(out)
    if rng.random() < .6:
        s += "\n"
    return s.encode("utf-8")


def lines_of(b):
    ls = b.split(b"\n")
    if ls[-1] == b"":
        ls.pop()
    return [l.decode("utf-8") for l in ls]


def pieces(rng, b):
    out = []
    k = rng.choice([1, 2, 3, 7, 100, 1024, 3000, 10 ** 6])
    while b:
        n = 1 if k == 1 and len(b) < 300 else rng.randrange(1, max(2, k) + 1)
        out.append(b[:n])
        b = b[n:]
    return out


async def consume(cls, rng, parts, script, check, cancel):
    """The items, how it ended, how often the check ran, what was seen when it ran."""
    r, w = os.pipe()
    runs = []

    async def at_eof():
        runs.append(len(items))
        for _ in range(script % 3):
            await asyncio.sleep(0)
        if check == "fails":
            raise KeyError("check")
    items = []
    h = cls(r, at_eof=at_eof if check else None)
    todo = list(parts)
    wrote = [0]
    state = {"end": None}

    async def writer():
        for p in todo:
            if rng.random() < .6:
                for _ in range(rng.randrange(4)):
                    await asyncio.sleep(0)
            off = 0
            while off < len(p):
                off += os.write(w, p[off:off + 4096])
                await asyncio.sleep(0)
        for _ in range(rng.randrange(4)):
            await asyncio.sleep(0)
        os.close(w)

    async def reader():
        it = h.__aiter__()
        while True:
            for _ in range(rng.choice([0, 0, 1, 5])):
                await asyncio.sleep(0)
            t = asyncio.ensure_future(it.__anext__())
            if cancel and rng.random() < .4:
                for _ in range(rng.randrange(3)):
                    await asyncio.sleep(0)
                t.cancel()
            try:
                items.append(await t)
            except asyncio.CancelledError:
                continue
            except StopAsyncIteration:
                state["end"] = "stop"
                return
            except KeyError as e:
                state["end"] = "check"
                return
    wt = asyncio.ensure_future(writer())
    await reader()
    await wt
    try:
        os.fstat(r)
        closed = False
    except OSError:
        closed = True
    more, calls = None, list(runs)
    if not check or check == "ok":
        try:
            more = await h.__anext__()
        except StopAsyncIteration:
            more = "stop"
    return items, state["end"], calls, closed, more


def scenario(c, n, line, cancel):
    for k in range(n):
        b = stream(c.rng)
        parts = pieces(c.rng, b)
        check = c.rng.choice([None, "ok", "fails"])
        cls = iterio.LineInputHandler if line else iterio.InputHandler
        inp = (b[:300], [len(p) for p in parts][:40], check, cancel)
        items, end, calls, closed, more = run(consume(cls, c.rng, parts, k, check, cancel))
        if line:
            c.eq(items, lines_of(b), "lines", inp)
        else:
            c.ok(all(isinstance(i, bytes) for i in items), "type", inp)
            c.eq(b"".join(items), b, "bytes", inp)
        c.eq(end, "check" if check == "fails" else "stop", "end", inp)
        if not cancel:
            c.eq(calls, [] if not check else [len(items)], "check-once-at-end", inp)
        c.ok(closed, "closed", inp)
        if more is not None:
            c.eq(more, "stop", "stays-ended", inp)


@case("lines", 100)
def _(c):
    scenario(c, 500 if THOROUGH else 160, True, False)


@case("bytes", 100)
def _(c):
    scenario(c, 500 if THOROUGH else 160, False, False)


@case("cancelled", 100)
def _(c):
    scenario(c, 300 if THOROUGH else 80, True, True)


@case("steps", 100)
def _(c):
    """Every interleaving of short event sequences with consumption: the
    handler is driven directly, reads are scripted."""
    import itertools
    real = os.read

    async def drive(cls, script, order):
        q = list(script) + [b""]
        r, w = os.pipe()
        os.close(w)
        loop = asyncio.get_event_loop()
        reg = []
        add, rem = loop.add_reader, loop.remove_reader
        loop.add_reader = lambda fd, *a: reg.append(fd)
        loop.remove_reader = lambda fd: reg.remove(fd)
        os.read = lambda fd, n: q.pop(0)
        items, end, task = [], False, None
        try:
            h = cls(r)

            async def settle():
                nonlocal task, end
                for _ in range(6):
                    await asyncio.sleep(0)
                if task is not None and task.done():
                    try:
                        items.append(task.result())
                    except StopAsyncIteration:
                        end = True
                    task = None
            steps = 0
            for o in itertools.chain(order, itertools.cycle("ec")):
                steps += 1
                if end or steps > 60:
                    break
                if o == "e":
                    if reg:
                        h.handle_event(1)
                elif task is None:
                    task = asyncio.ensure_future(h.__anext__())
                await settle()
            if task is not None:
                task.cancel()
        finally:
            os.read = real
            del loop.add_reader, loop.remove_reader
            if not getattr(h, "destroyed", False):
                os.close(r)
        return items, end
    scripts = [[], [b"a"], [b"a\n"], [b"a", b"b\n"], [b"a\nb"], [b"\n\n"], [b"a\nb\nc\n", b"d"], [b"\xc3", b"\xa5\n\xe2", b"\x82", b"\xac"],
               [b"a\n", b"\n", b"b"]]
    for s in scripts:
        for order in itertools.product("ec", repeat=6 if not THOROUGH else 9):
            b = b"".join(s)
            items, end = run(drive(iterio.LineInputHandler, s, order))
            c.eq((items, end), (lines_of(b), True), "lines", (s, "".join(order)))
            items, end = run(drive(iterio.InputHandler, s, order))
            c.eq((b"".join(items), end), (b, True), "bytes", (s, "".join(order)))


@case("pipelines", 100)
def _(c):
    env = pieshell.env(c.dir)
    for k in range(25 if not THOROUGH else 120):
        b = stream(c.rng)
        parts = pieces(c.rng, b)[:30]
        b = b"".join(parts)
        with open(os.path.join(c.dir, "prog.py"), "w") as f:
            pass
        for i, p in enumerate(parts):
            with open(os.path.join(c.dir, "p%d" % i), "wb") as f:
                f.write(p)
        sleep = c.rng.random() < .2
        script = "; ".join(("sleep 0.01; " if sleep and i < 5 else "") + "cat p%d" % i for i in range(len(parts))) or ":"
        cmd = env.sh("-c", pieshell.environ.R(script) if hasattr(pieshell, "environ") else script)
        inp = (b[:200], [len(p) for p in parts])
        try:
            text = b.decode("utf-8")
        except UnicodeDecodeError:
            text = None

        async def alines():
            return [l async for l in cmd]
        if text is not None:
            c.eq(run(alines()), lines_of(b), "async-lines", inp)
            c.eq(list(cmd), lines_of(b), "lines", inp)
            c.eq(str(cmd), text, "str", inp)
        c.eq(bytes(cmd), b, "bytes", inp)
    # the end waits for the processes: a failure is passed on, after the last line
    got = []
    try:
        for l in env.sh("-c", "echo a; echo b; exit 3"):
            got.append(l)
        end = None
    except pieshell.PipelineFailed as e:
        end = "failed"
    c.eq((got, end), (["a", "b"], "failed"), "failure-at-end")
    t0 = time.time()
    got = list(env.sh("-c", "echo a; exec >/dev/null; sleep 0.3"))
    c.ok(got == ["a"] and time.time() - t0 > .25, "waits-for-exit", got)


main("random UTF-8 streams (lines up to 5000 bytes, empty lines, no final newline, multi-byte characters) written in random pieces with "
     "random yielding between writer and reader, with and without cancelled readers and failing completion checks; all orders of "
     "6 events/requests for short streams; the same streams through real pipelines", setup)

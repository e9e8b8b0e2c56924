"""C17 concretely: random sources, functions and failure points."""
from common import *

load()
import asyncio
from pieshell.utils import asyncutils, jsonutils


class Boom(Exception):
    pass


class Odd(object):
    """falsy, and equal to nothing"""
    def __bool__(self):
        return False

    def __eq__(self, other):
        return False
    __hash__ = None


def pool(rng):
    return rng.choice([0, 1, "", "a", b"x", [], [1], {}, Odd(), False, True, 2.5, (1, 2), rng.random(), None, "line\n", Boom("value")])


def seq(c, n=None):
    return [pool(c.rng) for _ in range(c.rng.choice([0, 0, 1, 2, 3, 5, 17]) if n is None else n)]


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class AIter(object):
    def __init__(self, items, exc=None, slow=False):
        self.items, self.exc, self.pos, self.slow, self.ends = items, exc, 0, slow, 0

    def __aiter__(self):
        return self

    async def __anext__(self):
        if self.slow:
            await asyncio.sleep(0)
        if self.pos >= len(self.items):
            self.ends += 1
            raise self.exc if self.exc is not None else StopAsyncIteration()
        self.pos += 1
        return self.items[self.pos - 1]


class Iter(object):
    def __init__(self, items, exc=None):
        self.items, self.exc, self.pos = items, exc, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= len(self.items):
            raise self.exc if self.exc is not None else StopIteration()
        self.pos += 1
        return self.items[self.pos - 1]


EXCS = lambda: [None, Boom("e"), ValueError("v"), KeyError("k"), OSError(5, "x"), KeyboardInterrupt(), GeneratorExit(), asyncio.CancelledError(), EOFError()]


def drain(it):
    got = []
    try:
        for x in it:
            got.append(x)
    except BaseException as e:
        return got, e
    return got, None


async def adrain(it):
    got = []
    try:
        async for x in it:
            got.append(x)
    except BaseException as e:
        return got, e
    return got, None


def run(coro):
    return asyncio.get_event_loop().run_until_complete(coro)


@case("asyncitertoiter")
def _(c):
    for k in range(150):
        for exc in [c.rng.choice(EXCS()), None]:
            if isinstance(exc, (KeyboardInterrupt, GeneratorExit, asyncio.CancelledError)):
                exc = None
            items = seq(c)
            src = AIter(items, exc, c.rng.random() < .3)
            it = asyncutils.asyncitertoiter(src)
            c.ok(src.pos == 0, "lazy", {"items": repr(items)})
            ok = True
            got, e = [], None
            while True:
                try:
                    got.append(next(it))
                except StopIteration:
                    break
                except BaseException as ex:
                    e = ex
                    break
                ok = ok and src.pos == len(got)
            c.ok(same(got, items) and e is exc and ok, "items", {"items": repr(items), "exc": repr(exc), "got": repr(got), "raised": repr(e), "one at a time": ok})


@case("itertoasync")
def _(c):
    for k in range(300):
        exc = c.rng.choice(EXCS()[:5] + [None] * 4)
        want = seq(c)
        made = []

        async def co(x, slow):
            if slow:
                await asyncio.sleep(0)
            made.append(x)
            return x
        items, coros = [], []
        for x in want:
            if c.rng.random() < .4:
                items.append(co(x, c.rng.random() < .3))
                coros.append(x)
            else:
                items.append(x)
        kind = c.rng.choice(["iter", "list", "gen"]) if exc is None else "iter"
        src = Iter(items, exc)
        arg = src if kind == "iter" else list(items) if kind == "list" else (x for x in items)
        got, e = run(adrain(asyncutils.itertoasync(arg)))
        c.ok(same(got, want) and e is exc and same(made, coros), "items", {"kind": kind, "items": repr(want), "coroutines": repr(coros), "exc": repr(exc), "got": repr(got), "raised": repr(e)})

        # a coroutine failing at a position; the rest is still there
        fail = Boom("coroutine")

        async def bad():
            raise fail
        a, b = seq(c, 2), seq(c, 2)
        it = asyncutils.itertoasync(a + [bad()] + b).__aiter__()
        got = []

        async def steps():
            for i in range(5):
                try:
                    got.append(await it.__anext__())
                except BaseException as ex:
                    got.append(ex)
        run(steps())
        c.ok(same(got, a + [fail] + b), "failing coroutine", {"before": repr(a), "after": repr(b), "got": repr(got)})


@case("asyncmap")
def _(c):
    for k in range(300):
        exc = c.rng.choice(EXCS()[:5] + [None] * 4)
        items = seq(c)
        images = seq(c, len(items))
        failat = c.rng.randrange(len(items)) if items and c.rng.random() < .4 else None
        fail = c.rng.choice([Boom("f"), ValueError(), KeyError(1)])
        args = []

        def fn(x):
            args.append(x)
            if failat == len(args) - 1:
                raise fail
            return images[len(args) - 1]
        m = asyncutils.asyncmap(fn)
        src = AIter(items, exc, c.rng.random() < .3)
        other = AIter([1, 2], None)
        ap = m(src)
        ap2 = m(other)       # one mapper applied twice
        got, e = run(adrain(ap))
        want = images if failat is None else images[:failat]
        wargs = items if failat is None else items[:failat + 1]
        c.ok(same(got, want) and same(args, wargs) and e is (fail if failat is not None else exc), "items",
             {"items": repr(items), "failat": failat, "exc": repr(exc), "got": repr(got), "raised": repr(e)})
        c.ok(other.pos == 0, "other source untouched", {})


@case("jsonutils map and filter")
def _(c):
    for k in range(400):
        exc = c.rng.choice(EXCS()[:5] + [None] * 4)
        items = seq(c)
        real = [x for x in items if x is not None]
        images = seq(c, len(real))
        failat = c.rng.randrange(len(real)) if real and c.rng.random() < .4 else None
        fail = c.rng.choice([Boom("f"), ValueError(), KeyError(1)])
        for which in ("map", "filter"):
            args = []

            def fn(x):
                args.append(x)
                if failat == len(args) - 1:
                    raise fail
                return images[len(args) - 1]
            want, n, wexc = [], 0, exc
            for x in items:
                if x is None:
                    want.append(None)
                    continue
                if n == failat:
                    wexc = fail
                    break
                if which == "map":
                    want.append(images[n])
                elif images[n]:
                    want.append(x)
                n += 1
            src = Iter(items, exc)
            g = getattr(jsonutils, which)(fn)(src)
            c.ok(src.pos == 0 and not args, which + " lazy", {})
            got, e = drain(g)
            c.ok(same(got, want) and e is wexc and same(args, real[:n + (failat is not None and wexc is fail)]), which,
                 {"items": repr(items), "images": repr(images), "failat": failat, "exc": repr(exc), "got": repr(got), "want": repr(want), "raised": repr(e)})


@case("json lines")
def _(c):
    for k in range(100):
        vals = [c.rng.choice([None, 1, "é\n", [1, None], {"a": [{}]}, True, 1.5]) for _ in range(c.rng.choice([0, 1, 4]))]
        text = list(jsonutils.to_json(vals))
        c.eq([None if t is None else json.loads(t) for t in text], vals, "to_json", repr(vals))
        c.eq(list(jsonutils.from_json(text)), vals, "from_json", repr(vals))


main("random sources of 0..17 arbitrary items (falsy, None, incomparable, coroutines), failing and slow ones, failing functions; non-trivial: every evaluation compares the whole output by identity")

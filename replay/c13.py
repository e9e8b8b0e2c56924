"""C13 concretely: copies of arbitrary values; pipelines run again and again."""
from common import *
import collections, decimal, fractions, pathlib

Point = collections.namedtuple("Point", "x y")


class Colour(str, enum.Enum):
    RED = "red"


class Own(object):
    """copies itself"""
    def __init__(self, v):
        self.v = v
        self.copies = 0

    def __deepcopy__(self, memo):
        self.copies += 1
        assert isinstance(memo, dict)
        return Own(self.v)


class Plain(object):
    pass


class Text(str):
    def __str__(self):
        return "other"


class Stack(list):
    pass


def setup():
    global m, pieshell
    resource.setrlimit(resource.RLIMIT_NOFILE, (200, 200))
    pieshell = load()
    import pieshell.redir, pieshell.environ, pieshell.pipeline
    from pieshell.pipeline import base, function, running, command, pipe, group, redirect
    from pieshell import redir, environ
    from pieshell.utils import copy

    class M(object):
        pass
    m = M()
    m.base, m.function, m.running, m.redir, m.environ, m.copy = base, function, running, redir, environ, copy
    m.command, m.pipe, m.group, m.redirect = command, pipe, group, redirect
    asyncio.get_event_loop().set_exception_handler(lambda l, x: None)


# -- what a value looks like, and which objects it is made of -------------------
CONTAINERS = (list, tuple, dict)


def parts(p):
    """names of the attributes that make up a pipeline or redirection"""
    if isinstance(p, m.redir.Redirect):
        return ["fd", "source", "flag", "mode", "pipe", "borrowed"]
    if isinstance(p, m.redir.Redirects):
        return ["redirects"]
    d = {m.pipe.Pipe: ["src", "dst"], m.group.Group: ["a", "b"], m.redirect.CmdRedirect: ["pipeline", "cmd_redirects"], m.function.Function: ["function", "_arg", "_kw"]}
    return d.get(type(p), ["_arg"])


def structured(x):
    return isinstance(type(x), m.base.DescribableObjectType) or isinstance(x, (m.redir.Redirect, m.redir.Redirects))


def shape(x, seen=()):
    """the value as nested tuples, other objects by identity"""
    if isinstance(x, dict):
        return (type(x), getattr(x, "default_factory", None), tuple((shape(k), shape(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x), tuple(shape(v) for v in x))
    if isinstance(x, Own):
        return (Own, shape(x.v))
    if structured(x):
        r = tuple((n, shape(x.__dict__[n])) for n in parts(x))
        if not isinstance(x, (m.redir.Redirect, m.redir.Redirects)):
            r = (id(x.__dict__["_env"]),) + r
        return (type(x), r)
    if isinstance(x, (str, bytes, int, float)) and type(x) in (str, bytes, int, float, bool):
        return (type(x), x)
    return ("object", id(x))


def graph(x, res=None):
    """the pipelines, redirections and mutable containers a value is made of"""
    res = {} if res is None else res
    if structured(x) or isinstance(x, (list, dict)):
        res[id(x)] = x
    if isinstance(x, dict):
        for k, v in x.items():
            graph(k, res)
            graph(v, res)
    elif isinstance(x, (list, tuple)):
        for v in x:
            graph(v, res)
    elif structured(x):
        for n in parts(x):
            if n != "function":
                graph(x.__dict__[n], res)
    return res


class Gen(object):
    def __init__(self, c, env):
        self.c, self.r, self.env = c, c.rng, env
        self.pool = []

    def leaf(self, hashable=False):
        r = self.r
        xs = [lambda: "text%d" % r.randrange(9), lambda: "", lambda: b"bytes", lambda: r.randrange(100), lambda: 1.5, lambda: None, lambda: True, lambda: Colour.RED,
              lambda: Text("this"), lambda: decimal.Decimal("1.5"), lambda: fractions.Fraction(1, 3), lambda: pathlib.Path("/x"), lambda: len, lambda: (lambda s: s),
              lambda: self.leaf, lambda: decimal.Decimal, lambda: m.redir.PIPE, lambda: self.env]
        if not hashable:
            xs += [lambda: iter([1]), lambda: {1, 2}, lambda: bytearray(b"x"), lambda: Plain(), lambda: Own(self.value(1)), lambda: m.environ.R("raw"),
                   lambda: self.command(1), lambda: (x for x in "ab")]
        return r.choice(xs)()

    def value(self, depth):
        r = self.r
        if self.pool and r.random() < 0.15:
            return r.choice(self.pool)          # the same object again
        if depth == 0:
            return self.leaf()
        n = r.choice([0, 1, 2, 3])
        v = r.choice([
            lambda: self.leaf(), lambda: [self.value(depth - 1) for _ in range(n)], lambda: tuple(self.value(depth - 1) for _ in range(n)),
            lambda: {self.key(): self.value(depth - 1) for _ in range(n)}, lambda: Point(self.value(depth - 1), self.value(depth - 1)),
            lambda: collections.defaultdict(list, {self.key(): self.value(depth - 1) for _ in range(n)}),
            lambda: collections.OrderedDict((self.key(), self.value(depth - 1)) for _ in range(n)), lambda: Stack(self.value(depth - 1) for _ in range(n)),
            lambda: self.command(depth - 1), lambda: self.pipeline(depth - 1)])()
        if not isinstance(v, (str, bytes, int)):
            self.pool.append(v)
        return v

    def key(self):
        return self.r.choice([lambda: self.leaf(True), lambda: ("k", self.r.randrange(5)), lambda: "key%d" % self.r.randrange(9)])()

    def command(self, depth):
        p = self.env.echo
        for _ in range(self.r.choice([0, 1, 2])):
            p = p(*[self.value(depth) for _ in range(self.r.choice([0, 1, 2]))], **({"opt": self.value(depth)} if self.r.random() < 0.4 else {}))
        return p

    def pipeline(self, depth):
        r = self.r
        if depth <= 0:
            return self.command(0) if r.random() < 0.6 else m.function.Function(self.env, r.choice([len, iter([1]), self.leaf]), *[self.value(0) for _ in range(r.choice([0, 2]))], **({"k": self.value(0)} if r.random() < 0.3 else {}))
        a, b = self.pipeline(depth - 1), self.pipeline(depth - 1)
        if r.random() < 0.2:
            b = a
        k = r.choice(["pipe", "group", "redirect", "redirects"])
        if k == "pipe":
            return m.pipe.Pipe(self.env, a, b)
        if k == "group":
            return a + b
        rs = [m.redir.Redirect(fd, r.choice(["/tmp/nothing", pathlib.Path("/nothing"), b"/nothing", m.redir.PIPE, m.redir.STRING, 7]), r.choice([os.O_WRONLY, os.O_RDONLY]), r.choice([0o600, 0o777]),
                               r.choice([None, 9]), r.random() < 0.5) for fd in r.sample(range(8), r.choice([1, 2, 3]))]
        return m.redirect.CmdRedirect(self.env, a, m.redir.Redirects(*rs))


for _k in range(2):
    @case("values-%d" % _k, timeout=90)
    def _(c):
        env = pieshell.env(exports={"A": "1"})
        for it in range(1500 if not THOROUGH else 15000):
            g = Gen(c, env)
            x = g.value(c.rng.choice([1, 2, 3, 4]))
            before, objs = shape(x), graph(x)
            try:
                y = m.copy.deepcopy(x)
            except Exception as e:
                c.ok(False, "fails", (safe(x), repr(e)))
                continue
            # the originals are still there: identities can be compared
            c.ok(shape(y) == before, "shape", (safe(x), safe(y)))
            c.ok(shape(x) == before, "original", safe(x))
            shared = set(graph(y)) & set(objs)
            c.ok(not shared, "shared", (safe(x), [safe(objs[i]) for i in shared][:3]))
            # a copy has every part to itself
            c.ok(tree_like(y), "used-twice", safe(x))
            c.ok(getattr(m.copy.copy_state, "memo", None) is None, "session", safe(x))


def tree_like(y):
    """no pipeline occurs twice"""
    seen = set()

    def walk(x):
        if isinstance(x, dict):
            return all(walk(k) and walk(v) for k, v in x.items())
        if isinstance(x, (list, tuple)):
            return all(walk(v) for v in x)
        if structured(x):
            if id(x) in seen:
                return False
            seen.add(id(x))
            return all(walk(x.__dict__[n]) for n in parts(x) if n != "function")
        return True
    return walk(y)


def safe(x):
    try:
        return repr(shape(x))[:600]
    except Exception as e:
        return repr(e)


# -- running --------------------------------------------------------------------

class Runs(object):
    """pipelines that can be run again, with parts used more than once"""

    def __init__(self, rng, env, dir):
        self.r, self.env, self.dir = rng, env, dir
        self.n = 0
        self.pool = []

    def name(self):
        self.n += 1
        return "n%d" % self.n

    def source(self):
        r, n = self.r, self.name()
        k = r.randrange(5)
        if k == 0:
            return self.env.echo(n)
        if k == 1:
            return self.env.printf(n + "\\n" + n + "\\n")
        if k == 2:
            return m.function.Function(self.env, [n, n + "x"])

        def fn(stdin, *a, **kw):
            yield "%s %r %r" % (n, a, sorted(kw.items()))
        return m.function.Function(self.env, fn, *[[n], {"k": [1]}, (1,)][:r.randrange(3)], **({"key": [n]} if r.random() < 0.4 else {}))

    def filter(self):
        r, n = self.r, self.name()
        k = r.randrange(4)
        if k == 0:
            return self.env.cat()
        if k == 1:
            return self.env.sed("s/^/%s /" % n)
        if k == 2:
            return self.env.sh("-c", 'echo "$0"; cat; cat "$1"', n, self.gen(1) < "/dev/null")

        async def fn(stdin):
            yield n
            async for line in stdin:
                yield line + " " + n
        return m.function.Function(self.env, fn)

    def gen(self, depth):
        r = self.r
        if self.pool and r.random() < 0.2:
            return r.choice(self.pool)
        if depth == 0:
            p = self.source()
        else:
            k = r.choice(["pipe", "pipe", "group", "file", "input", "null"])
            if k == "pipe":
                p = self.gen(depth - 1) | self.filt(depth - 1)
            elif k == "group":
                p = self.gen(depth - 1) + self.gen(depth - 1)
            elif k == "null":
                p = self.gen(depth - 1) | m.redir.Redirect("stderr", "/dev/null")
            elif k == "file":
                p = self.gen(depth - 1) > os.path.join(self.dir, self.name())
            else:
                f = os.path.join(self.dir, self.name())
                with open(f, "w") as h:
                    h.write("in %d\n" % self.n)
                p = self.filter() < f
        self.pool.append(p)
        return p

    def filt(self, depth):
        if depth and self.r.random() < 0.3:
            p = self.filt(depth - 1)
            return p | p if self.r.random() < 0.5 else p | self.filter()
        return self.filter()


def run_once(p, how, loop):
    def text(rp):
        async def get():
            res = []
            try:
                async for x in rp.iterbytes():
                    res.append(x)
            except m.running.PipelineFailed:
                res.append(b"failed")
            return b"".join(res)
        return loop.run_until_complete(asyncio.wait_for(get(), 20))
    out = [m.redir.Redirect("stdout", m.redir.PIPE), m.redir.Redirect("stdin", "/dev/null")]
    if how == "twice":
        a = p.run(out)
        b = p.run(out)
        return [(a, text(a)), (b, text(b))]
    a = p.run(out)
    return [(a, text(a))]


def lines(b):
    return sorted(b.split(b"\n"))


def has_output(p):
    """standard output of the whole goes to the outside"""
    if isinstance(p, m.redirect.CmdRedirect):
        return 1 not in p.cmd_redirects.redirects and has_output(p.pipeline)
    if isinstance(p, m.pipe.Pipe):
        return has_output(p.dst)
    if isinstance(p, m.group.Group):
        return has_output(p.a) and has_output(p.b)
    return True


for _k in range(4):
    @case("runs-%d" % _k, timeout=90)
    def _(c):
        loop = asyncio.get_event_loop()
        env = pieshell.env(exports=dict(os.environ))
        for it in range(40 if not THOROUGH else 500):
            d = os.path.join(c.dir, "r%d" % it)
            os.mkdir(d)
            g = Runs(c.rng, env, d)
            p = g.gen(c.rng.choice([1, 2, 3]))
            if not has_output(p):
                shutil.rmtree(d)
                continue
            before, mine = shape(p), graph(p)
            known = dict(mine)
            desc = (it, p._repr())
            first = None
            keep = []
            for n in range(3):
                try:
                    rs = run_once(p, "twice" if n == 1 else "once", loop)
                except asyncio.TimeoutError:
                    c.ok(False, "hangs", desc)
                    return
                c.ok(env.last_pipeline is rs[-1][0], "last", desc)
                for rp, got in rs:
                    keep.append(rp)
                    c.ok(rp.finished != (rp in env.running_pipelines), "jobs", desc)
                    c.ok(shape(p) == before, "changed", desc)
                    q = rp.pipeline
                    c.ok(not q is p, "itself", desc)
                    c.ok(not p._started and q._started, "started", desc)
                    parts_ = graph(q)
                    both = set(parts_) & set(known)
                    c.ok(not both, "shared", (desc, [type(known[i]).__name__ for i in both]))
                    known.update(parts_)
                    c.ok(shape(q) == before, "copy", desc)
                    if first is None:
                        first = lines(got)
                    c.eq(lines(got), first, "same-result", desc)
            loop.run_until_complete(asyncio.sleep(0))
            shutil.rmtree(d)


@case("operators")
def _(c):
    env = pieshell.env(exports=dict(os.environ))
    for it in range(400 if not THOROUGH else 4000):
        g = Gen(c, env)
        p, q = g.pipeline(c.rng.choice([0, 1, 2])), g.pipeline(c.rng.choice([0, 1]))
        r = m.redir.Redirect(c.rng.choice([0, 1]), "/nothing")
        before = shape(p), shape(q), shape(r)
        if shape(p)[0] in (m.redir.Redirects,):
            continue
        ops = [lambda: p | q, lambda: p + q, lambda: p > "/nothing", lambda: p < "/nothing", lambda: p | r, lambda: r | p, lambda: p > r, lambda: [1] | p, lambda: len | p,
               lambda: p | m.redir.Redirects(r)]
        if isinstance(p, m.command.BaseCommand):
            ops += [lambda: p("x", y=1), lambda: p.name, lambda: p(), lambda: p - p, lambda: p.a.b("c")]
        k = c.rng.randrange(len(ops))
        try:
            n = ops[k]()
        except (ValueError, AssertionError, TypeError):
            continue
        c.ok((shape(p), shape(q), shape(r)) == before, "changed", (k, safe(p)))
        c.ok(n is not p and n is not q, "itself", (k, safe(p)))


@case("what runs is known")
def _(c):
    loop = asyncio.get_event_loop()
    for it in range(12):
        env = pieshell.env(exports=dict(os.environ), cwd=c.dir)
        p = c.rng.choice([lambda: env.sleep("30"), lambda: env.sleep("30") | env.cat(), lambda: env.sh("-c", "exec sleep 30") + env.true()])() | m.redir.Redirect(1, "/dev/null")
        rps = [p.run() for _ in range(c.rng.choice([1, 2]))]
        c.ok(env.last_pipeline is rps[-1], "the last pipeline", "")
        c.ok([x for x in env.running_pipelines] == rps, "every run is among the running pipelines", "")
        for rp in rps:
            for q in rp.processes:
                if q.is_running:
                    os.kill(q.iohandler.pid, 9)

        async def end(rp):
            try:
                await rp.wait()
            except Exception:
                pass
        for rp in rps:
            loop.run_until_complete(asyncio.wait_for(end(rp), 60))
        c.ok([x for x in env.running_pipelines] == [], "until it has ended", "")
        rp = env.cd(".").run()
        c.ok(env.last_pipeline is rp and list(env.running_pipelines) == [], "what runs nothing is not running", "")


main("copies of 3000 random nested values (lists, tuples, dictionaries and subclasses of them, parts used twice, numbers, strings of other classes, functions, "
     "iterators, environments, classes, pipelines, redirections): same shape, nothing mutable shared, the original as it was; 160 random pipelines with shared "
     "parts run four times each, two of them at once: same results, no object shared between runs or with the value; operators leave operands alone", setup)

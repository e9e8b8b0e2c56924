"""C18 concretely: random collections of processes and key strings."""
from common import *

pieshell = load()
import slugify
from pieshell import tree
from pieshell.pipeline import running


class Proc(object):
    def __init__(self, keys):
        self.keys = keys
        self.asked = []

    def _getkey(self, level):
        self.asked.append(level)
        if level is None or level >= len(self.keys):
            return str(id(self))
        return self.keys[level]

    def __bool__(self):
        return False


def name(key):
    s = slugify.slugify(key, separator="_")
    return "n" + s if s[:1].isdigit() else s


def members(node, isproc, out):
    if isproc(node):
        out.append(node)
        return
    for k in dir(node):
        members(getattr(node, k), isproc, out)


def check(c, procs, node, level, isproc, inp, sub):
    """node is the tree of procs at level."""
    groups = {}
    for p in procs:
        g = groups.setdefault(name(p._getkey(level)), [])
        if not any(q is p for q in g):
            g.append(p)
    got = sorted(dir(node))
    if not c.eq(got, sorted(groups), sub + " names", inp):
        return
    for k, g in groups.items():
        v = getattr(node, k)
        if not c.ok(not k[:1].isdigit(), sub + " digit", {"name": k, "input": inp}):
            return
        if len(g) == 1:
            c.ok(v is g[0], sub + " single", {"input": inp, "level": level, "name": k, "got": repr(v)})
        elif c.ok(not isproc(v), sub + " group", {"input": inp, "level": level, "name": k, "got": repr(v)}):
            check(c, g, v, level + 1, isproc, inp, sub)
    for k in ("no_such_name", "keys", "n"):
        if k not in groups:
            try:
                getattr(node, k)
                c.ok(False, sub + " unknown", {"input": inp, "name": k})
            except AttributeError:
                c.ok(True, sub + " unknown", k)


WORDS = ["a", "A", "b", "ls", "7z", "n7z", "7-z", "", "-", "é", "e", "children", "children ", "x.y", "x_y", "/bin/x-y", "level", "日本", "1", "n1", "_", "items", "get"]


@case("arbitrary keys")
def _(c):
    for n in range(400):
        words = c.rng.sample(WORDS, c.rng.choice([1, 2, 3, 8]))
        procs = [Proc([c.rng.choice(words) for _ in range(c.rng.choice([1, 2, 3, 5]))]) for _ in range(c.rng.choice([0, 1, 2, 3, 6, 20]))]
        inp = [p.keys for p in procs]
        level = c.rng.choice([0, 0, 1])
        kids = procs
        kind = c.rng.choice(["list", "tuple", "values", "iterator"])
        arg = kids if kind == "list" else tuple(kids) if kind == "tuple" else {i: k for i, k in enumerate(kids)}.values() if kind == "values" else iter(list(kids))
        t = tree.TreeGroup(arg, level) if level else tree.TreeGroup(arg)
        isproc = lambda x: isinstance(x, Proc)
        check(c, procs, t, level, isproc, {"keys": inp, "level": level, "given as": kind}, "tree")
        out = []
        members(t, isproc, out)
        c.eq(sorted(map(id, out)), sorted(map(id, procs)), "once each", {"keys": inp})
        # more processes later do not change a tree made before
        if kind == "list" and procs:
            before = sorted(dir(t))
            kids.append(Proc(["zzz"]))
            c.eq(sorted(dir(t)), before, "own", inp)


@case("processes and functions")
def _(c):
    env = pieshell.env

    def gen1(x=None):
        yield x
    class K(object):
        def gen1(self, x=None):
            yield x

        def __call__(self, x=None):
            yield x
    fns = [gen1, K().gen1, K(), lambda x: x]

    def fakerun(cls, cmd, **kw):
        r = object.__new__(cls)
        r.cmd = cmd
        r.details = None
        r.iohandler = None
        r.output_content = {}
        return r
    for n in range(150):
        procs = []
        for i in range(c.rng.choice([1, 2, 3, 5, 9])):
            k = c.rng.randrange(4)
            if k == 0:
                procs.append(fakerun(running.RunningFunction, pieshell.Function(env, c.rng.choice(fns))))
            elif k == 1:
                procs.append(running.BaseRunningItem())
            else:
                args = [c.rng.choice(["git", "ls", "a", "7z", "./x", "/bin/cat", "status", "-l", "children", "wait", "my-cmd"]) for _ in range(c.rng.choice([1, 2, 3]))]
                procs.append(fakerun(running.RunningProcess, pieshell.Command(env, args)))
        inp = [repr(getattr(p, "cmd", p)) for p in procs]
        ids = [p._getkey(None) for p in procs]
        c.eq(len(set(ids)), len(procs), "identities", inp)
        for p in procs:
            for lv in (3, 4, 7):
                c.eq(p._getkey(lv), str(id(p)), "last key", inp)
            for lv in range(3):
                c.ok(isinstance(p._getkey(lv), str), "key", inp)
            if isinstance(p, running.RunningProcess):
                a = p.cmd._arg
                if all(x.isalpha() for x in a):
                    c.eq([p._getkey(0), p._getkey(1)], [a[0], ".".join(a) if len(a) > 1 else repr(p.cmd)], "process keys", a)
            if isinstance(p, running.RunningFunction):
                fn = p.cmd._function_name()
                c.eq([p._getkey(0), p._getkey(1), p._getkey(2)], [fn.split(".")[-1], fn, repr(p.cmd)], "function keys", fn)
        rp = object.__new__(running.RunningPipeline)
        rp.processes = procs
        isproc = lambda x: isinstance(x, running.BaseRunningItem)
        t = rp._children
        check(c, procs, t, 0, isproc, inp, "pipeline")
        out = []
        members(t, isproc, out)
        c.eq(sorted(map(id, out)), sorted(map(id, procs)), "once each", inp)
        for k in dir(t):
            c.ok(k in rp.__dir__(), "listed by the pipeline", k)
            if not hasattr(type(rp), k) and k not in rp.__dict__:
                v = getattr(rp, k)
                w = getattr(t, k)
                c.ok(v is w or (not isproc(v) and sorted(dir(v)) == sorted(dir(w))), "reached from the pipeline", k)


main("random collections of 0..20 processes with colliding and odd key strings, fake ones and real RunningProcess/RunningFunction objects; "
     "non-trivial: every evaluation compares a whole level of a tree with an independent grouping")

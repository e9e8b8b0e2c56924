"""Random pipelines, how they are to be connected, and what really happened.

A tree is built with randomly spelled operators.  The model `wire` says what
every part gets at every descriptor: the outside, a file, or one of the pipes.
Every process reports what its descriptors are; the functions' handlers are
looked at in this process."""
from common import *
import pathlib
import collections

SCRIPT = r'''(ls -l /proc/$$/fd > "$0" 2>/dev/null); echo "$1"; if [ -n "$2" ]; then cat "$2"; fi; exec cat'''
SINK = r'''(ls -l /proc/$$/fd > "$0" 2>/dev/null); echo "$1"; echo "to $1" > "$2"; exec cat'''


class Pipe_(object):
    """one pipe of the model"""
    def __init__(self, name):
        self.name = name
        self.writers, self.readers = [], []

    def __repr__(self):
        return "pipe %s" % self.name


class Leaf(object):
    def __init__(self, kind, label):
        self.kind, self.label = kind, label
        self.handler = self.arg = self.sink = None

    def __repr__(self):
        return self.label if self.arg is None else "%s(%s%r)" % (self.label, ">" if self.sink else "<", self.arg)


class Node(object):
    def __init__(self, kind, *parts):
        self.kind, self.parts = kind, parts

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join(map(repr, self.parts)))


class Tree(object):
    def __init__(self, c, mods, env, dir, depth, extra=0.3):
        self.c, self.rng, self.m, self.env, self.dir = c, c.rng, mods, env, dir
        self.n = 0
        self.extra = extra
        self.leaves, self.pipes, self.held, self.lent, self.spelled = [], [], [], [], []
        self.pipeline, self.node = self.gen(depth, False)

    def name(self, pre):
        self.n += 1
        return "%s%d" % (pre, self.n)

    # -- building ---------------------------------------------------------
    def gen(self, depth, fed, raw=False):
        """raw: operands that are not pipelines themselves are allowed"""
        r = self.rng
        k = "leaf" if depth == 0 else r.choice(["leaf", "pipe", "pipe", "group", "redir"])
        if k == "leaf":
            return self.leaf(fed, raw, depth)
        if k == "pipe":
            left_raw = r.random() < 0.5
            a, na = self.gen(depth - 1, fed, left_raw)
            b, nb = self.gen(depth - 1, True, isinstance(a, self.m.base.Pipeline))
            return self.spell_pipe(a, b), Node("pipe", na, nb)
        if k == "group":
            a, na = self.gen(depth - 1, fed)
            b, nb = self.gen(depth - 1, fed)
            return a + b, Node("group", na, nb)
        a, na = self.gen(depth - 1, fed)
        specs = {}
        fds = r.choice([[1], [1], [0], [0], [2], [0, 1], [1, 2], [0, 1, 2], [5], [1, 7]])
        p = a
        for fd in fds:
            specs[fd] = self.spec(fd)
        if len(fds) == 1:
            p = self.spell_redirect(p, fd, specs[fd])
        else:
            rs = [self.redirect(fd, specs[fd]) for fd in fds]
            r.shuffle(rs)
            if r.random() < 0.5:
                p = p | self.m.redir.Redirects(*rs)
            else:
                for x in rs:
                    p = p | x if r.random() < 0.7 else x | p
        return p, Node("redir", na, {fd: t for fd, t in specs.items()})

    def leaf(self, fed, raw, depth):
        r = self.rng
        kinds = ["proc", "proc", "proc", "func"] + ([] if fed else ["iter"]) + (["arg", "sink"] if depth else [])
        k = r.choice(kinds)
        if k == "proc":
            l = Leaf(k, self.name("p"))
            self.leaves.append(l)
            return self.env.sh("-c", SCRIPT, os.path.join(self.dir, l.label), l.label, ""), l
        if k == "arg":
            sub, nsub = self.gen(depth - 1, fed)
            l = Leaf("proc", self.name("p"))
            l.arg = nsub
            self.leaves.append(l)
            return self.env.sh("-c", SCRIPT, os.path.join(self.dir, l.label), l.label, sub), l
        if k == "sink":
            l = Leaf("proc", self.name("p"))
            f = Leaf("func", self.name("f"))
            l.arg, l.sink = f, True
            self.leaves += [f, l]
            return self.env.sh("-c", SINK, os.path.join(self.dir, l.label), l.label, self.function(f)), l
        if k == "func":
            l = Leaf(k, self.name("f"))
            self.leaves.append(l)
            f = self.function(l)
        else:
            l = Leaf(k, self.name("i"))
            self.leaves.append(l)
            x = l.label
            f = r.choice([lambda: [x], lambda: (x,), lambda: {x}, lambda: {x: 1}, lambda: iter([x]), lambda: (y for y in [x]), lambda: {1: x}.values()])()
        if raw:
            return f, l
        return self.m.function.Function(self.env, f), l

    def function(self, l):
        if self.rng.random() < 0.3:
            class C(object):
                def method(self, stdin):
                    l.handler = stdin
                    return self.lines(stdin)

                async def lines(self, stdin):
                    yield l.label
                    async for line in stdin:
                        yield line
            return C().method

        async def fn(stdin):
            yield l.label
            async for line in stdin:
                yield line
        # the input has to be looked at when the pipeline has been started
        def start(stdin):
            l.handler = stdin
            return fn(stdin)
        return start

    def spell_pipe(self, a, b):
        P = self.m.base.Pipeline
        w = []
        if isinstance(a, P):
            w += ["a | b", "a > b"]
        if isinstance(b, P):
            w += ["a | b", "b < a"]
            if not isinstance(a, (set, dict)):
                w += ["a > b"]
        how = self.rng.choice(w)
        self.spelled.append(how)
        return {"a | b": lambda: a | b, "a > b": lambda: a > b, "b < a": lambda: b < a}[how]()

    def spec(self, fd):
        """what to redirect to: (target of the model, source)"""
        k = self.rng.choice(["path", "path", "path", "null", "lent", "owned"])
        if k == "null":
            return ("file", "/dev/null"), None
        p = os.path.join(self.dir, self.name("file"))
        if fd == 0:
            with open(p, "w") as f:
                f.write("%s\n" % os.path.basename(p))
        if k == "path":
            return ("file", p), self.rng.choice([p, p, p.encode(), pathlib.Path(p)])
        n = os.open(p, os.O_RDONLY if fd == 0 else os.O_WRONLY | os.O_CREAT, 0o600)
        (self.lent if k == "lent" else self.held).append((n, p))
        return ("file", p), (n, k == "lent")

    def redirect(self, fd, spec):
        t, s = spec
        R = self.m.redir.Redirect
        if s is None:
            s = "/dev/null"
        f = fd if self.rng.random() < 0.5 else {0: "stdin", 1: "stdout", 2: "stderr"}.get(fd, fd)
        kw = {} if fd < 3 else {"flag": os.O_WRONLY | os.O_CREAT}
        if isinstance(s, tuple):
            return R(f, s[0], borrowed=s[1], **kw)
        return R(f, s, **kw)

    def spell_redirect(self, p, fd, spec):
        t, s = spec
        R = self.m.redir.Redirects
        w = ["p | r", "r | p", "p > r", "p < r", "p | R", "R | p"]
        if not isinstance(s, tuple):
            if fd == 0:
                w += ["s | p", "p < s", "s > p"] * 3
            if fd == 1:
                w += ["p | s", "p > s", "s < p"] * 3
        how = self.rng.choice(w)
        self.spelled.append(how)
        r = self.redirect(fd, spec)
        return {"p | r": lambda: p | r, "r | p": lambda: r | p, "p > r": lambda: p > r, "p < r": lambda: p < r,
                "p | R": lambda: p | R(r), "R | p": lambda: R(r) | p,
                "s | p": lambda: s | p, "p < s": lambda: p < s, "s > p": lambda: s > p,
                "p | s": lambda: p | s, "p > s": lambda: p > s, "s < p": lambda: s < p}[how]()

    # -- the model --------------------------------------------------------
    def pipe(self, name):
        p = Pipe_(name)
        self.pipes.append(p)
        return p

    def wire(self, env):
        """leaves in the order in which they are started, each with its .table"""
        self.order = []
        self.wire_(self.node, env)
        for l in self.order:
            if isinstance(l.table[1], Pipe_):
                l.table[1].writers.append(l)
            if l.kind != "iter" and isinstance(l.table[0], Pipe_):
                l.table[0].readers.append(l)
            if l.arg is not None:
                if l.sink:
                    l.argpipe.writers.append(l)
                else:
                    l.argpipe.readers.append(l)

    def racy(self):
        """a function and a process read the same pipe"""
        return any(len({l.kind for l in p.readers}) > 1 for p in self.pipes)

    def broken(self, out):
        """leaves whose output may fail: somewhere behind them nobody reads"""
        bad = set()
        while True:
            dead = {p for p in self.pipes if p is not out and (not p.readers or any(l in bad for l in p.readers))}
            new = {l for l in self.order if l.table[1] in dead or (l.sink and l.argpipe in dead)}
            if new == bad:
                return bad
            bad = new

    def wire_(self, n, env):
        if isinstance(n, Leaf):
            n.table = dict(env)
            if n.arg is not None:
                p = n.argpipe = self.pipe("argument of %s" % n.label)
                sub = dict(env)
                sub[0 if n.sink else 1] = p
                self.wire_(n.arg, sub)
            self.order.append(n)
        elif n.kind == "pipe":
            p = self.pipe("%r" % n)
            a, b = dict(env), dict(env)
            a[1] = b[0] = p
            self.wire_(n.parts[0], a)
            self.wire_(n.parts[1], b)
        elif n.kind == "group":
            for x in n.parts:
                self.wire_(x, env)
        else:
            env = dict(env)
            for fd, (t, s) in n.parts[1].items():
                env[fd] = t
            self.wire_(n.parts[0], env)

    # -- what was observed ------------------------------------------------
    def observed(self, l):
        """descriptor -> what it is, of a process"""
        res = {}
        try:
            with open(os.path.join(self.dir, l.label)) as f:
                for line in f:
                    x = line.rstrip("\n").split(" -> ")
                    if len(x) == 2:
                        h = x[0].split()
                        res[int(h[-1])] = (x[1], h[0])
        except OSError:
            return None
        return res


def identity(fd):
    return os.readlink("/proc/self/fd/%d" % fd)


class Matching(object):
    """pipes of the model against those observed: a bijection"""

    def __init__(self):
        self.fwd, self.bwd = {}, {}

    def match(self, want, got):
        if isinstance(want, tuple):
            return got == want[1]
        if not want.writers:
            if got == "/dev/null":
                return True         # nothing to read
        if not got.startswith("pipe:"):
            return False
        return self.fwd.setdefault(want, got) == got and self.bwd.setdefault(got, want) is want


def flows(tree, initial=()):
    """what ends up where: target -> Counter of lines; None when that depends on timing"""
    final = collections.defaultdict(collections.Counter)
    opens = collections.Counter()
    content = collections.defaultdict(collections.Counter)
    for l in tree.order:
        t = l.table[1]
        if isinstance(t, tuple):
            opens[t] += 1
    for x, n in opens.items():
        if n > 1 and x[1] != "/dev/null":
            return None
    readers = collections.Counter()
    for l in tree.order:
        if l.kind != "iter" and isinstance(l.table[0], tuple):
            readers[l.table[0]] += 1
    # every line goes from the pipe it is written to on to where its reader writes
    for p in tree.pipes:
        if len({l.table[1] if not (l.arg is not None and l.sink and False) else None for l in p.readers}) > 1:
            return None

    def put(t, line, depth=0):
        if depth > 50:
            return
        if isinstance(t, Pipe_) and t.readers:
            put(t.readers[0].table[1], line, depth + 1)
        else:
            final[t][line] += 1
    for l in tree.order:
        t = l.table[1]
        put(t, l.label)
        if l.sink:
            put(l.argpipe, "to " + l.label)
    return final, readers, put


def outside(c, m, tree):
    """random redirections for the whole and their model"""
    d = tree.dir
    inp = os.path.join(d, "in")
    with open(inp, "w") as f:
        f.write("in\n")
    table = {0: ("file", inp), 2: ("own",)}
    rs = [m.redir.Redirect(0, inp)]
    out = tree.pipe("outside")
    mode = c.rng.choice(["pipe", "pipe", "file", "lent"])
    outfile = os.path.join(d, "out")
    if mode == "pipe":
        table[1] = out
        rs.append(m.redir.Redirect("stdout", m.redir.PIPE))
    elif mode == "file":
        table[1] = ("file", outfile)
        rs.append(m.redir.Redirect(1, outfile))
    else:
        table[1] = ("file", outfile)
        n = os.open(outfile, os.O_WRONLY | os.O_CREAT, 0o600)
        tree.lent.append((n, outfile))
        rs.append(m.redir.Redirect(1, n, borrowed=True))
    for fd in c.rng.sample([2, 4, 6], c.rng.choice([0, 0, 1, 2])):
        if c.rng.random() < 0.5:
            p = tree.pipe("outside %d" % fd)
            table[fd] = p
            rs.append(m.redir.Redirect(fd, m.redir.PIPE, os.O_WRONLY))
        else:
            p = os.path.join(d, "out%d" % fd)
            table[fd] = ("file", p)
            rs.append(m.redir.Redirect(fd, p, os.O_WRONLY | os.O_CREAT))
    return table, rs, mode, out, inp

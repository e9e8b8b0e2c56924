"""C06 concretely: the descriptors of this process before, right after and at the end of random pipelines."""
from common import *
from trees import *
real_close = os.close


def setup():
    global m, pieshell
    resource.setrlimit(resource.RLIMIT_NOFILE, (200, 200))
    pieshell = load()
    import pieshell.redir, pieshell.environ, pieshell.pipeline
    from pieshell.pipeline import base, function, running
    from pieshell import redir, environ

    class M(object):
        pass
    m = M()
    m.base, m.function, m.running, m.redir, m.environ = base, function, running, redir, environ
    asyncio.get_event_loop().set_exception_handler(lambda l, x: None)


class Closes(object):
    """every os.close of this process"""

    def __enter__(self):
        self.pid = os.getpid()
        self.failed, self.done = [], []
        os.close = self.close
        return self

    def close(self, fd):
        try:
            what = identity(fd)
        except OSError:
            what = None
        try:
            real_close(fd)
        except OSError:
            self.failed.append(fd)
            raise
        self.done.append((fd, what))

    def __exit__(self, *a):
        os.close = real_close


def table_now():
    res = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            res[int(n)] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return {k: v for k, v in res.items() if not v.startswith("/proc/")}


def warm(c):
    """what is opened once for the whole session"""
    env = pieshell.env(exports=dict(os.environ))
    str(env.echo("x") | env.cat())
    list(m.function.Function(env, lambda stdin: ["x"]) | env.cat())


def run_tree(c, it, depth):
    d = os.path.join(c.dir, "t%d" % it)
    os.mkdir(d)
    env = pieshell.env(exports=dict(os.environ))
    tree = Tree(c, m, env, d, depth)
    table, rs, mode, out, inp = outside(c, m, tree)
    tree.wire(table)
    lent = dict(tree.lent)
    held = dict(tree.held)

    def finish():
        for n in list(lent) + list(held):
            try:
                real_close(n)
            except OSError:
                pass
        shutil.rmtree(d)
        return True
    if tree.racy():
        return finish()
    what = (tree.node, tree.spelled, rs)
    desc = repr(what)
    loop = asyncio.get_event_loop()
    before = table_now()
    with Closes() as closes:
        rp = tree.pipeline.run(rs)
        after = table_now()
        procs = list(rp.processes)
        ok = c.eq(len(procs), len(tree.order), "started", desc)
        # the exposed ends
        whole = rp.pipeline._redirects.redirects
        ends = {fd: e.pipe for fd, e in whole.items() if isinstance(e.pipe, int)}
        for fd, t in table.items():
            if isinstance(t, Pipe_) and any(l.table.get(fd) is t for l in tree.order):
                ok = c.ok(fd in ends, "exposed", (desc, fd)) and ok
        for fd in ends:
            ok = c.ok(isinstance(table.get(fd), Pipe_), "exposed-for-nothing", (desc, fd)) and ok
        ok = c.eq(len(set(ends.values())), len(ends), "exposed-twice", (desc, ends)) and ok
        # those of the functions
        own, inputs = {}, set()
        for x, l in zip(procs, tree.order):
            if l.kind == "proc":
                continue
            own[x.iohandler.fd] = (l.label, "output")
            if l.kind == "func" and l.handler is not None:
                ok = c.ok(l.handler.fd not in own, "handler-shared", (desc, l.label)) and ok
                own[l.handler.fd] = (l.label, "input")
                inputs.add(l.handler.fd)
        ok = c.ok(not set(own) & set(ends.values()), "handler-exposed", (desc, own, ends)) and ok
        ok = c.ok(not set(own) & (set(before) - set(held)), "handler-lent", (desc, own)) and ok
        kept = {fd: x for fd, x in before.items() if fd not in held}
        for fd, x in kept.items():
            ok = c.eq(after.get(fd), x, "kept", (desc, fd)) and ok
        new = {fd: x for fd, x in after.items() if fd not in kept}
        ok = c.eq(sorted(new), sorted(set(own) | set(ends.values())), "open", (desc, new, own, ends)) and ok
        ok = c.eq(closes.failed, [], "closed-twice", (desc, "at the start")) and ok
        for fd, x in closes.done:
            ok = c.ok(fd not in kept, "closed-lent", (desc, fd, x)) and ok
        if not ok:
            finish()
            return False
        for fd, e in ends.items():
            if fd != 1:
                real_close(e)

        async def end():
            try:
                if 1 in ends and isinstance(table[1], Pipe_):
                    async for chunk in rp.iterbytes():
                        pass
                else:
                    await rp.wait()
            except m.running.PipelineFailed:
                pass
        try:
            loop.run_until_complete(asyncio.wait_for(end(), 20))
        except asyncio.TimeoutError:
            c.ok(False, "does-not-end", desc)
            return False
        # handlers finish when the loop gets to them
        for i in range(200):
            now = table_now()
            if not [fd for fd in now if fd not in kept]:
                break
            loop.run_until_complete(asyncio.sleep(0.002))
        c.eq(closes.failed, [], "closed-twice", (desc, "at the end"))
        for fd, x in kept.items():
            c.eq(now.get(fd), x, "kept-at-end", (desc, fd))
        left = {fd: x for fd, x in now.items() if fd not in kept}
        # a function that could not write its output leaves its input as it is
        bad = tree.broken(out)
        broken = {l.handler.fd for l in tree.order if l.kind == "func" and l.handler is not None and l in bad}
        c.ok(set(left) <= broken, "left-open", (desc, left, own, ends))
        for fd in left:
            loop.remove_reader(fd)
            real_close(fd)
    rp.remove_output_files()
    return finish()


def trees(c, n, depth):
    warm(c)
    for it in range(n):
        if not run_tree(c, it, depth):
            break


for _k in range(4):
    @case("trees-%d" % _k, timeout=90 if not THOROUGH else 800)
    def _(c):
        trees(c, 160 if not THOROUGH else 1500, 2)

    @case("deep-%d" % _k, timeout=90 if not THOROUGH else 800)
    def _(c):
        trees(c, 60 if not THOROUGH else 600, 4)


main("random pipelines (processes, functions, methods, iterators, pipes, groups, redirections to owned and lent descriptors, pipelines and functions as "
     "arguments, nested to depth 4): this process's descriptors right after the start are those before, less those handed over, plus the ends exposed and "
     "those of the functions; every close succeeds and is of none of those lent; at the end nothing is left", setup)

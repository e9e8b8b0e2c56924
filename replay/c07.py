"""C07 concretely: random pipelines, their connections as the kernel sees them, and where the data went."""
from common import *
from trees import *


def setup():
    global m, pieshell
    resource.setrlimit(resource.RLIMIT_NOFILE, (200, 200))
    pieshell = load()
    import pieshell.redir, pieshell.environ, pieshell.pipeline
    from pieshell.pipeline import base, function, running
    from pieshell import redir, environ

    class M(object):
        pass
    m = M()
    m.base, m.function, m.running, m.redir, m.environ = base, function, running, redir, environ
    asyncio.get_event_loop().set_exception_handler(lambda l, x: None)


def run_tree(c, it, depth, extra):
    d = os.path.join(c.dir, "t%d" % it)
    os.mkdir(d)
    env = pieshell.env(exports=dict(os.environ))
    tree = Tree(c, m, env, d, depth)
    table, rs, mode, out, inp = outside(c, m, tree)
    tree.wire(table)
    if tree.racy():
        # a read in this process might wait for what a process has just taken
        for n, p in tree.lent + tree.held:
            os.close(n)
        shutil.rmtree(d)
        return True
    what = (tree.node, tree.spelled, rs)
    desc = repr(what)
    p = tree.pipeline
    c.ok((p | True) is p, "true", desc)
    rp = p.run(rs)
    loop = asyncio.get_event_loop()
    # the functions' ends, right after the start
    mt = Matching()
    procs = list(rp.processes)
    c.eq(len(procs), len(tree.order), "started", desc)
    for x, l in zip(procs, tree.order):
        if l.kind == "proc":
            if not c.ok(isinstance(x, m.running.RunningProcess) and l.label in x.cmd._arg, "order", (desc, l.label)):
                break
        else:
            if not c.ok(isinstance(x, m.running.RunningFunction), "order", (desc, l.label)):
                break
            c.ok(mt.match(l.table[1], identity(x.iohandler.fd)), "function-output", (desc, l.label, l.table, identity(x.iohandler.fd)))
            if l.kind == "func" and l.handler is not None:
                c.ok(mt.match(l.table[0], identity(l.handler.fd)), "function-input", (desc, l.label, l.table, identity(l.handler.fd)))
    # the ends of the whole
    whole = rp.pipeline._redirects.redirects
    ends = []
    for fd, t in table.items():
        if isinstance(t, Pipe_):
            e = whole[fd].pipe if fd in whole else None
            if isinstance(e, int):
                c.ok(mt.match(t, identity(e)), "exposed", (desc, fd, identity(e)))
                ends.append((fd, e))
            else:
                c.ok(not any(l.table.get(fd) is t for l in tree.order), "not-exposed", (desc, fd))
    got = b""
    for fd, e in ends:
        if fd != 1:
            os.close(e)

    async def finish():
        res = []
        try:
            if mode == "pipe" and any(fd == 1 for fd, e in ends):
                async for chunk in rp.iterbytes():
                    res.append(chunk)
            else:
                await rp.wait()
        except m.running.PipelineFailed:
            pass
        return b"".join(res)
    try:
        got = loop.run_until_complete(asyncio.wait_for(finish(), 20))
    except asyncio.TimeoutError:
        c.ok(False, "does-not-end", desc)
        return False
    # what the processes saw
    for l in tree.order:
        if l.kind != "proc":
            continue
        o = tree.observed(l)
        if not c.ok(o is not None, "process-report", (desc, l.label)):
            continue
        for fd, t in l.table.items():
            if t == ("own",):
                c.ok(fd in o and not o[fd][0].startswith("pipe:"), "process-capture", (desc, l.label, fd, o))
                continue
            c.ok(fd in o and mt.match(t, o[fd][0]), "process-descriptor", (desc, l.label, fd, l.table, o))
            if fd in o and o[fd][0] != "/dev/null":
                c.eq("w" in o[fd][1], fd != 0, "process-direction", (desc, l.label, fd))
        more = {x: v[0] for x, v in o.items() if x not in l.table and x < 100}
        want = 1 if l.arg is not None else 0
        if c.eq(len(more), want, "process-more", (desc, l.label, more, l.table)) and want:
            c.ok(mt.match(l.argpipe, list(more.values())[0]), "process-argument", (desc, l.label, more))
    # where the data went
    fl = flows(tree)
    if fl is not None:
        final, readers, put = fl
        ok = True
        for t, n in readers.items():
            if t[1] == "/dev/null":
                continue
            ls = [l for l in tree.order if l.kind != "iter" and l.table[0] == t]
            if isinstance(table.get(0), tuple) and t[1] == inp or True:
                src = os.path.basename(t[1])
            shared = any(t[1] == q for _, q in tree.lent + tree.held)
            # read by path each reader gets all of it; a shared descriptor is read once
            if shared and len({l.table[1] for l in ls}) > 1:
                ok = False
            for l in ls[:1] if shared else ls:
                put(l.table[1], src)
        if ok:
            for t, want in final.items():
                if t == ("file", "/dev/null") or isinstance(t, Pipe_) and t is not out:
                    continue
                if t is out:
                    data = got
                else:
                    try:
                        with open(t[1], "rb") as f:
                            data = f.read()
                    except OSError as e:
                        data = b"missing"
                have = collections.Counter(data.decode("utf-8", "replace").split("\n"))
                c.ok(data.endswith(b"\n") or not data, "lines", (desc, t, data))
                del have[""]
                c.eq(dict(have), dict(want), "data", (desc, t))
            if out not in final:
                c.eq(got, b"", "data", (desc, "nothing"))
    for n, p in tree.lent:
        c.eq(os.path.exists("/proc/self/fd/%d" % n) and identity(n), p, "lent", (desc, n))
        try:
            os.close(n)
        except OSError:
            pass
    rp.remove_output_files()
    shutil.rmtree(d)
    return True


def trees(c, n, depth, extra=0.3):
    for it in range(n):
        if not run_tree(c, it, depth, extra):
            break


for _k in range(4):
    @case("trees-%d" % _k, timeout=90 if not THOROUGH else 800)
    def _(c):
        trees(c, 160 if not THOROUGH else 1500, 2)

    @case("deep-%d" % _k, timeout=90 if not THOROUGH else 800)
    def _(c):
        trees(c, 60 if not THOROUGH else 600, 4)


main("random pipelines (processes, functions, methods, iterators, pipes, groups, redirections, pipelines and functions as arguments, nested to depth 4) "
     "with randomly spelled operators and operands of every kind: what each descriptor of each part is, as the kernel shows it, is compared with a "
     "model of the wiring, the order of the processes, the exposed ends, and which data ended up where", setup)

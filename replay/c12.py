"""C12 concretely: captures of random tables, shared or not, and of real pipelines."""
from common import *


def setup():
    global pieshell, running, base, redir, environ
    pieshell = load()
    from pieshell import redir, environ
    from pieshell.pipeline import running, base


class Handler(object):
    def __init__(self):
        self.f = asyncio.get_event_loop().create_future()

    is_running = property(lambda s: not s.f.done())
    exception = property(lambda s: None if not s.f.done() else s.f.exception())

    async def wait(self):
        return await self.f

    def _repr_args(self):
        return []


async def drain():
    for i in range(8):
        await asyncio.sleep(0)


def texts(data):
    """what the content may look like as text"""
    s = data.decode("utf-8", "replace")
    return (s, s.replace("\r\n", "\n").replace("\r", "\n"))


def blob(c):
    k = c.rng.randrange(8)
    if k == 0:
        return b""
    if k == 1:
        return bytes(c.rng.randrange(256) for i in range(c.rng.randrange(1, 60)))
    if k == 2:
        return b"line\n" * c.rng.randrange(1, 4000)
    if k == 3:
        return "h\u00e4 \u20ac \U0001f600\n".encode() * c.rng.randrange(1, 30)
    if k == 4:
        return b"no newline at the end"
    if k == 5:
        return b"\x00\xff\xfe\n\x80" * c.rng.randrange(1, 9)
    if k == 6:
        return b"0123456789abcde\n" * c.rng.choice([4096, 4097, 20000])
    return bytes(c.rng.randrange(32, 127) for i in range(c.rng.randrange(20000)))


async def table_history(c, it):
    d = os.path.join(c.dir, "t%d" % it)
    os.mkdir(d)
    env = environ.Environment()
    nfiles = c.rng.randrange(0, 6)
    files = []
    for j in range(nfiles):
        p = os.path.join(d, "f%d" % j)
        kind = c.rng.choice(["STRING", "TMP", "plain"])
        data = blob(c)
        with open(p, "wb") as f:
            f.write(data)
        files.append([p, kind, data])
    n = c.rng.choice([0, 1, 2, 3, 4])
    items, hs, tables = [], [], []
    for i in range(n):
        rs, tab = redir.Redirects(redir.Redirect(0, "/dev/null")), {}
        for fd in c.rng.sample([1, 2, 3, 5, 9, 17], c.rng.randrange(0, 5)):
            if files and c.rng.random() < 0.8:
                j = c.rng.randrange(nfiles)
                p, kind, data = files[j]
                pipe = {"STRING": lambda: redir.STRING(path=p), "TMP": lambda: redir.TMP(path=p), "plain": lambda: None}[kind]()
                rs.register(redir.Redirect(fd, 100 + j if pipe is not None else p, os.O_WRONLY, 0o777, pipe, c.rng.random() < 0.5))
                tab[fd] = j
            else:
                rs.register(redir.Redirect(fd, 200 + fd, os.O_WRONLY, 0o777, c.rng.choice([None, 7])))
        cmd = base.Pipeline(env)
        cmd._redirects = rs
        h = Handler()
        items.append(running.RunningFunction(cmd, h))
        hs.append(h)
        tables.append(tab)
    pl = base.Pipeline(env)
    rp = running.RunningPipeline(items, pl)
    trace = (tables, [(f[1], len(f[2])) for f in files])
    order = list(range(n))
    c.rng.shuffle(order)
    for k, i in enumerate(order):
        c.ok(all(os.path.exists(f[0]) for f in files), "removed-early", trace)
        c.ok(all(not x.output_content for x in items), "collected-early", trace)
        # the files still change while something runs
        for f in files:
            if c.rng.random() < 0.3:
                f[2] += blob(c)
                with open(f[0], "wb") as g:
                    g.write(f[2])
        if c.rng.random() < 0.2:
            hs[i].f.set_exception(ValueError("x"))
        else:
            hs[i].f.set_result(None)
        await drain()

    def check(removed):
        for i, x in enumerate(items):
            want = {fd: texts(files[j][2]) for fd, j in tables[i].items() if files[j][1] == "STRING"}
            c.ok(set(x.output_content) == set(want), "captured", (trace, i, sorted(x.output_content), sorted(want)))
            for fd in want:
                c.ok(x.output_content.get(fd) in want[fd], "content", (trace, i, fd))
            w = {fd: files[j][0] for fd, j in tables[i].items() if files[j][1] == "TMP"}
            g = {fd: v.path for fd, v in x.output_files.items()}
            c.eq(g, w, "output-files", (trace, i))
        used = lambda j, ks: any(j in t.values() for t in ks)
        for j, f in enumerate(files):
            gone = (f[1] == "STRING" and used(j, tables)) or (f[1] == "TMP" and j in removed)
            c.eq(os.path.exists(f[0]), not gone, "exists", (trace, f[1], j, sorted(removed)))
    if n:
        check(set())
    removed = set()
    if n and c.rng.random() < 0.5:
        i = c.rng.randrange(n)
        items[i].remove_output_files()
        removed |= {j for j in tables[i].values() if files[j][1] == "TMP"}
        check(removed)
    for k in range(c.rng.choice([1, 1, 2])):
        rp.remove_output_files()
        for t in tables:
            removed |= {j for j in t.values() if files[j][1] == "TMP"}
        if n:
            check(removed)
    for f in files:
        if os.path.exists(f[0]):
            os.unlink(f[0])
    os.rmdir(d)


@case("tables", timeout=150)
def _(c):
    loop = asyncio.get_event_loop()
    loop.set_exception_handler(lambda l, x: None)
    for it in range(350 if not THOROUGH else 4000):
        loop.run_until_complete(asyncio.wait_for(table_history(c, it), 20))


@case("real", timeout=250)
def _(c):
    """real pipelines: every process's captures, and what is left behind"""
    import tempfile
    loop = asyncio.get_event_loop()
    loop.set_exception_handler(lambda l, x: None)
    tmp = os.path.join(c.dir, "tmp")
    os.mkdir(tmp)
    tempfile.tempdir = tmp
    src = os.path.join(c.dir, "src")
    os.mkdir(src)
    env = pieshell.env(exports=dict(os.environ))
    num = [0]

    def put(data):
        num[0] += 1
        p = os.path.join(src, "d%d" % num[0])
        with open(p, "wb") as f:
            f.write(data)
        return p

    def leaf(stdin, caps):
        """a process that reads all of its input, writes known data to stdout and stderr"""
        o, e = blob(c), blob(c)
        if c.rng.random() < 0.2:
            e = b""
        cmd = env.sh("-c", "%scat '%s'; cat '%s' >&2; exit %d" % ("cat >/dev/null; " if stdin else "", put(o), put(e), c.rng.choice([0, 0, 3])))
        want = {1: o, 2: e}
        r = {}
        for fd in caps:
            k = c.rng.choice(["STRING", "STRING", "TMP", None])
            if k:
                cmd = cmd | redir.Redirect(fd, getattr(redir, k))
                r[fd] = (k, want[fd])
        if 1 in caps and 1 not in r:
            cmd = cmd | redir.Redirect(1, "/dev/null")
        if 2 not in r:
            cmd = cmd | redir.Redirect(2, "/dev/null")
        return cmd, r, o
    for it in range(40 if not THOROUGH else 400):
        with open(os.path.join(tmp, "unrelated"), "wb") as f:
            f.write(b"x")
        shape = c.rng.choice(["one", "pipe", "group", "pipe3", "function", "arg"])
        wants = []
        if shape == "one":
            p, r, o = leaf(False, [1, 2])
            wants = [r]
        elif shape in ("pipe", "pipe3"):
            p, r, o = leaf(False, [2])
            wants = [r]
            for k in range(1 if shape == "pipe" else 2):
                q, r, o = leaf(True, [1, 2] if k == (0 if shape == "pipe" else 1) else [2])
                p = p | q
                wants.append(r)
        elif shape == "group":
            p, r, o = leaf(False, [1, 2])
            q, r2, o = leaf(False, [1, 2])
            p, wants = p + q, [r, r2]
        elif shape == "function":
            n = c.rng.choice([0, 1, 5000])

            async def fn(stdin):
                for i in range(n):
                    yield "item %d" % i
            data = b"".join(b"item %d\n" % i for i in range(n))
            k = c.rng.choice(["STRING", "TMP"])
            from pieshell.pipeline.function import Function
            p = Function(env, fn) | redir.Redirect(1, getattr(redir, k))
            wants = [{1: (k, data), 2: ("STRING", b"")}]      # the environment captures stderr
        else:
            # a process given as an argument shares the captures of its command
            e1, e2 = blob(c)[:500], blob(c)[:500]
            f1, f2 = put(e1), put(e2)
            k = c.rng.choice(["STRING", "TMP"])
            p = env.sh("-c", "cat \"$1\" >/dev/null; cat '%s' >&2" % f2, "x", env.sh("-c", "cat '%s' >&2" % f1)) | redir.Redirect(2, getattr(redir, k)) | redir.Redirect(1, "/dev/null")
            wants = None
        rp = p.run()
        try:
            loop.run_until_complete(asyncio.wait_for(rp.wait(), 30))
        except running.PipelineFailed:
            pass
        keep = {"unrelated"}
        if wants is not None:
            c.eq(len(rp.processes), len(wants), "processes", shape)
            for i, (x, r) in enumerate(zip(rp.processes, wants)):
                s = {fd: v for fd, v in r.items() if v[0] == "STRING"}
                t = {fd: v for fd, v in r.items() if v[0] == "TMP"}
                c.eq(sorted(x.output_content), sorted(s), "real-captured", (shape, i, r.keys()))
                for fd in s:
                    c.ok(x.output_content.get(fd) in texts(s[fd][1]), "real-content", (shape, i, fd, len(s[fd][1]), len(x.output_content.get(fd, ""))))
                c.eq(sorted(x.output_files), sorted(t), "real-files", (shape, i, r.keys()))
                for fd in t:
                    if fd in x.output_files:
                        path = x.output_files[fd].path
                        keep.add(os.path.basename(path))
                        with open(path, "rb") as f:
                            c.ok(f.read() == t[fd][1], "real-file-content", (shape, i, fd))
        else:
            c.eq(len(rp.processes), 2, "processes", shape)
            if k == "STRING":
                got = [x.output_content.get(2) for x in rp.processes]
                c.ok(all(g is not None and g == got[0] for g in got), "shared-content", (shape, [g and len(g) for g in got]))
                c.eq(len((got[0] or "").encode("utf-8")) > 0, bool(e1 + e2), "shared-content", shape)
            else:
                for x in rp.processes:
                    c.eq(list(x.output_files), [2], "shared-files", shape)
                    if 2 in x.output_files:
                        keep.add(os.path.basename(x.output_files[2].path))
        c.eq(sorted(os.listdir(tmp)), sorted(keep), "left-behind", shape)
        rp.remove_output_files()
        c.eq(sorted(os.listdir(tmp)), ["unrelated"], "removed", shape)
        for f in os.listdir(src):
            os.unlink(os.path.join(src, f))
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))


main("random tables over shared and unshared capture files that change until the last process ends, in every order; real pipelines (single, piped, "
     "grouped, functions, process arguments) with random data: contents per process and descriptor, files present and removed", setup)

"""C05 on the real code: tables applied in forked children, whose descriptor
tables are then inspected."""
from common import *
import mmap, stat, struct


def ident(fd):
    st = os.fstat(fd)
    return (st.st_dev, st.st_ino)


def in_child(fn, size=1 << 16):
    """Run fn in a forked child; its result (JSON) and wait status."""
    m = mmap.mmap(-1, size)
    m[:4] = struct.pack("I", 0)
    pid = os.fork()
    if pid == 0:
        try:
            r = json.dumps(fn()).encode()
            m[4:4 + len(r)] = r
            m[:4] = struct.pack("I", len(r))
        except BaseException as e:
            r = json.dumps({"exception": repr(e)}).encode()
            m[4:4 + len(r)] = r
            m[:4] = struct.pack("I", len(r))
        finally:
            os._exit(0)
    st = os.waitpid(pid, 0)[1]
    n = struct.unpack("I", m[:4])[0]
    r = json.loads(bytes(m[4:4 + n]).decode()) if n else None
    m.close()
    return r, st


def snapshot(redir, log):
    """Descriptor table of this process."""
    out = {}
    for i in range(0, redir.MAXFD):
        try:
            a = ident(i)
        except OSError:
            continue
        fl = fcntl.fcntl(i, fcntl.F_GETFL)
        out[i] = [list(a), fl & (3 | os.O_APPEND | os.O_NONBLOCK), fcntl.fcntl(i, fcntl.F_GETFD) & fcntl.FD_CLOEXEC]
    return out


@case("random tables applied in a child", timeout=120)
def _(c):
    p = load()
    redir, log = p.redir, p.log
    os.umask(0)
    rng = c.rng
    base = {}
    pool = []
    for k in range(8):
        fd = os.open(os.path.join(c.dir, "src%d" % k), os.O_RDWR | os.O_CREAT)
        pool.append(fd)
    # some sources at high and at low, interleaved numbers
    for n in (3, 4, 5, 6, 40, 41, 300):
        if n not in pool:
            d = os.open(os.path.join(c.dir, "fix%d" % n), os.O_RDWR | os.O_CREAT)
            if d != n:
                os.dup2(d, n, inheritable=bool(n % 2))
                os.close(d)
            pool.append(n)
    pool = sorted(set(pool + [0, 1, 2]))
    ids = {}

    for n in range(90 if not THOROUGH else 1200):
        k = rng.choice([0, 1, 2, 2, 3, 3, 4, 6])
        style = rng.choice(["any", "perm", "perm", "shared", "low"])
        t = redir.Redirects()
        want = {}
        targets = rng.sample(pool + [7, 8, 9, 50, 299, 301], k)
        srcs = list(targets) if style == "perm" else None
        if srcs:
            srcs = [x if x in pool else rng.choice(pool) for x in srcs]
            rng.shuffle(srcs)
        shared = rng.choice(pool)
        desc = []
        for j, fd in enumerate(targets):
            if rng.random() < 0.25:
                fn = os.path.join(c.dir, "f%d_%d" % (n, j))
                kind = rng.choice(["read", "write", "append", "trunc", "bytes", "nonexcl"])
                mode = rng.choice([0o600, 0o640, 0o755, 0o777])
                if kind != "write":
                    with open(fn, "w") as f:
                        f.write("content")
                    os.chmod(fn, 0o666)
                flag = {"read": os.O_RDONLY, "write": os.O_WRONLY | os.O_CREAT, "append": os.O_WRONLY | os.O_APPEND,
                        "trunc": os.O_RDWR | os.O_TRUNC, "bytes": os.O_RDWR, "nonexcl": os.O_RDONLY | os.O_NONBLOCK}[kind]
                t.redirect(fd, fn.encode() if kind == "bytes" else fn, flag, mode, borrowed=rng.random() < .5)
                want[fd] = ("file", fn, flag, mode, kind)
            else:
                s = srcs[j] if srcs else shared if style == "shared" else rng.choice(pool[:6] if style == "low" else pool)
                t.redirect(fd, s, rng.choice([os.O_RDONLY, os.O_WRONLY]), borrowed=rng.random() < .5, pipe=rng.choice([None, 5, 3]))
                want[fd] = ("fd", s)
            desc.append((fd,) + want[fd])
        orig = {s: ident(s) for s in pool}

        def child():
            t.perform()
            return snapshot(redir, log)
        r, st = in_child(child)
        if not isinstance(r, dict) or "exception" in r:
            c.ok(False, "performs", (desc, r, st))
            continue
        got = {int(a): b for a, b in r.items()}
        got.pop(log.logfd, None)
        c.ok(set(got) == set(want), "exactly-the-listed-descriptors", {"table": desc, "open": sorted(got)})
        for fd, w in want.items():
            g = got.get(fd)
            if g is None:
                continue
            if w[0] == "fd":
                c.ok(tuple(g[0]) == orig[w[1]], "source-as-before", {"table": desc, "fd": fd})
            else:
                st = os.stat(w[1])
                c.ok(tuple(g[0]) == (st.st_dev, st.st_ino), "file", {"table": desc, "fd": fd})
                c.ok(g[1] == w[2] & (3 | os.O_APPEND | os.O_NONBLOCK), "flags", {"table": desc, "fd": fd, "flags": g[1]})
                if w[4] == "write":
                    c.ok(stat.S_IMODE(st.st_mode) == w[3], "mode", {"table": desc, "mode": oct(st.st_mode)})
                c.ok(st.st_size == (0 if w[4] in ("write", "trunc") else 7), "size", {"table": desc, "size": st.st_size})
            c.ok(g[2] == 0, "inherited", {"table": desc, "fd": fd})


@case("the log stays open, also with many descriptors")
def _(c):
    p = load()
    redir, log = p.redir, p.log
    fd = [os.open("/dev/null", os.O_RDONLY) for _ in range(200)]
    os.dup2(fd[0], redir.MAXFD - 3)
    t = redir.Redirects()
    t.redirect(0, fd[1])

    def child():
        t.perform()
        return sorted(snapshot(redir, log))
    r, st = in_child(child)
    c.eq(r, sorted([0, log.logfd]), "open", "200 more descriptors, one just below the limit")


def run_cmd(p, cmd, t, c):
    """Start cmd with the given table; wait status of the child."""
    with p.utils.copy.copy_session() as sess:
        procs = cmd._run(t, sess)
    return procs


@case("programs see exactly their descriptors")
def _(c):
    p = load()
    redir = p.redir
    rng = c.rng
    e = p.env
    for n in range(12):
        a, b = os.path.join(c.dir, "a%d" % n), os.path.join(c.dir, "b%d" % n)
        fa, fb = os.open(a, os.O_RDWR | os.O_CREAT), os.open(b, os.O_RDWR | os.O_CREAT)
        out = os.path.join(c.dir, "out%d" % n)
        t = redir.Redirects()
        t.redirect(0, "/dev/null")
        t.redirect(1, fa)
        t.redirect(2, fb)
        k = rng.choice([3, 7, 9, 20, fa, fb])
        t.redirect(k, fa if n % 2 else fb, os.O_RDWR)
        code = "import os; os.write(1, b'one'); os.write(2, b'two'); os.write(%d, b'k');" % k + \
            "l = sorted(int(x) for x in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + x)); open(%r, 'w').write(repr(l))" % out
        cmd = e._("/usr/bin/python3", "-S", "-E", "-c", code)
        pid = os.fork()
        if pid == 0:
            try:
                cmd._child(t, ["/usr/bin/python3", "-S", "-E", "-c", code])
            except BaseException:
                traceback.print_exc()
            os._exit(99)
        st = os.waitpid(pid, 0)[1]
        c.eq(st, 0, "runs", (k, st))
        with open(out) as f:
            got = eval(f.read())
        c.eq([x for x in got if x != p.log.logfd], sorted([0, 1, 2, k]), "descriptors", k)
        x, y = open(a).read(), open(b).read()
        if k == fa or k == fb:
            pass
        c.eq((x, y), ("onek", "two") if n % 2 else ("one", "twok"), "contents", k)
        os.close(fa), os.close(fb)


@case("a redirection that cannot be applied: not executed, failure")
def _(c):
    p = load()
    redir = p.redir
    marker = os.path.join(c.dir, "ran")

    def run(t, argv, cwd=None):
        env = p.env
        if cwd:
            env = p.env(exports=dict(os.environ))
            env._cwd = cwd
        cmd = env._(*argv)
        before = os.getpid()
        with p.utils.copy.copy_session() as sess:
            procs = cmd._run(redir.Redirects(t), sess)
        if os.getpid() != before:
            open(marker + ".escaped", "w").close()
            os._exit(0)
        pid = procs[-1].pid
        p.signalio.manager.get_signal_manager()
        return os.waitpid(pid, 0)[1]
    touch = ["/bin/sh", "-c", "echo > " + marker]
    good = lambda: redir.Redirects().redirect(0, "/dev/null").redirect(1, "/dev/null").redirect(2, "/dev/null")
    st = run(good(), touch)
    c.ok(st == 0 and os.path.exists(marker), "control", st)
    os.unlink(marker)
    closed = 777
    for name, t in (("missing directory", good().redirect(1, os.path.join(c.dir, "no/such"))),
                    ("missing file", good().redirect(0, os.path.join(c.dir, "nosuch"))),
                    ("closed source", good().redirect(5, closed, os.O_RDONLY, borrowed=True)),
                    ("closed source first", redir.Redirects().redirect(0, closed, borrowed=True).redirect(1, "/dev/null").redirect(2, "/dev/null")),
                    ("last fails", good().redirect(9, c.dir, os.O_WRONLY)),
                    ("only failing", redir.Redirects().redirect(7, os.path.join(c.dir, "nosuch"), os.O_RDONLY)),
                    ("exclusive", good().redirect(4, c.dir, os.O_WRONLY | os.O_CREAT | os.O_EXCL))):
        st = run(t, touch)
        c.ok(not os.path.exists(marker), "executed", name)
        c.ok(os.WIFEXITED(st) and os.WEXITSTATUS(st) != 0, "exit-failure", (name, st))
        c.ok(not os.path.exists(marker + ".escaped"), "escaped", name)
    for name, t, argv, cwd in (
            ("missing program", good(), ["/no/such/program"], None),
            ("missing program, no stderr", redir.Redirects().redirect(0, "/dev/null"), ["/no/such/program"], None),
            ("not executable", good(), [c.dir], None),
            ("embedded null", good(), ["/bin/sh", "a\0b"], None),
            ("missing directory", good(), touch, c.dir + "/gone")):
        st = run(t, argv, cwd)
        c.ok(not os.path.exists(marker), "executed", name)
        c.ok(os.WIFEXITED(st) and os.WEXITSTATUS(st) != 0, "exit-failure", (name, st))
        c.ok(not os.path.exists(marker + ".escaped"), "escaped", name)


main("random tables of up to 6 entries over 20 numbers (permutations, shared and own sources, files with all flags), applied in a child; "
     "failing redirections of 7 kinds; non-trivial: every evaluation inspects a child's descriptor table or exit")

"""C04 on the real code: random tables and operation sequences against a
dictionary model."""
from common import *


def mk(rng, redir, removable=False):
    fd = rng.choice([0, 1, 2, "stdin", "stdout", "stderr", 3, 4, 7, 19, 300])
    src = rng.choice([0, 1, 2, 5, 9, 300, "/dev/null", "/tmp/x y", redir.PIPE, redir.TMP, redir.STRING])
    kw = {}
    if not isinstance(fd, str) and fd > 2 or rng.random() < 0.5:
        kw["flag"] = rng.choice([os.O_RDONLY, os.O_WRONLY, os.O_WRONLY | os.O_CREAT, os.O_RDWR | os.O_APPEND])
    if rng.random() < 0.3:
        kw["mode"] = rng.choice([0o600, 0o644])
    if rng.random() < 0.3:
        kw["pipe"] = rng.choice([11, 12, None])
    if rng.random() < 0.4:
        kw["borrowed"] = rng.random() < 0.5
    return redir.Redirect(fd, src, **kw), model(fd, src, **kw)


def model(fd, src, flag=None, mode=0o777, pipe=None, borrowed=False):
    fd = {"stdin": 0, "stdout": 1, "stderr": 2}.get(fd, fd)
    if flag is None:
        flag = {0: os.O_RDONLY, 1: os.O_WRONLY | os.O_CREAT, 2: os.O_WRONLY | os.O_CREAT}[fd]
    return (fd, src, flag, mode, pipe, borrowed)


def view1(r):
    return (r.fd, r.source, r.flag, r.mode, r.pipe, r.borrowed)


def view(t):
    return {k: view1(r) for k, r in t.redirects.items()}


@case("random operation sequences")
def _(c):
    redir = load().redir
    rng = c.rng
    for n in range(400 if not THOROUGH else 4000):
        tabs = [redir.Redirects()]
        mods = [{}]
        log = []
        for step in range(rng.randrange(2, 14)):
            i = rng.randrange(len(tabs))
            op = rng.choice(["register", "register", "redirect", "copy", "merge", "extend", "borrow", "free", "remove", "regtab", "list"])
            log.append((op, i))
            if op == "register":
                r, m = mk(rng, redir)
                log.append(m)
                res = tabs[i].register(r)
                mods[i][m[0]] = m
                c.ok(res is tabs[i], "register-returns-self", log[-6:])
            elif op == "redirect":
                fd = rng.choice([0, 1, 2, "stdin", "stdout"])
                src = rng.choice([4, "/dev/null", redir.PIPE])
                b = rng.random() < 0.5
                res = tabs[i].redirect(fd, src, borrowed=b)
                m = model(fd, src, borrowed=b)
                mods[i][m[0]] = m
                c.ok(res is tabs[i], "redirect-returns-self", log[-6:])
            elif op == "copy":
                tabs.append(redir.Redirects(tabs[i]))
                mods.append(dict(mods[i]))
            elif op == "merge":
                j = rng.randrange(len(tabs))
                tabs.append(tabs[i].merge(tabs[j]))
                mods.append(dict(mods[i], **{}))
                mods[-1].update(mods[j])
            elif op == "extend":
                r, m = mk(rng, redir)
                tabs.append(redir.Redirects(tabs[i], r))
                mods.append(dict(mods[i]))
                mods[-1][m[0]] = m
            elif op == "list":
                rs = [mk(rng, redir) for _ in range(rng.randrange(0, 4))]
                tabs.append(redir.Redirects(*[r for r, m in rs]))
                mods.append({m[0]: m for r, m in rs})
            elif op == "regtab":
                # copies keep later borrow() calls from being shared
                j = rng.randrange(len(tabs))
                tabs[i].register(redir.Redirects(tabs[j]))
                mods[i].update(mods[j])
            elif op == "borrow":
                tabs[i].borrow()
                mods[i] = {k: m[:5] + (True,) for k, m in mods[i].items()}
            elif op == "remove":
                if mods[i]:
                    fd = rng.choice(sorted(mods[i]))
                    tabs[i].register(redir.Redirect(fd, None, 0))
                    del mods[i][fd]
            elif op == "free":
                f = tabs[i].find_free_fd()
                used = [2] + list(mods[i]) + [m[1] for m in mods[i].values() if isinstance(m[1], int)]
                c.ok(f > max(used), "free-fd", {"table": mods[i], "got": f})
            bad = [k for k in range(len(tabs)) if view(tabs[k]) != mods[k]]
            if not c.ok(not bad, "table-contents", {"ops": log[-12:], "table": bad and view(tabs[bad[0]]), "expected": bad and mods[bad[0]]}):
                break


@case("make_pipes")
def _(c):
    redir = load().redir
    import fcntl, stat
    rng = c.rng
    for n in range(120):
        t = redir.Redirects()
        m = {}
        for _ in range(rng.randrange(0, 5)):
            r, mm = mk(rng, redir)
            if mm[1] in (redir.TMP, redir.STRING) and not mm[2] & os.O_WRONLY:
                continue
            t.register(r)
            m[mm[0]] = mm
        before = view(t)
        res = t.make_pipes()
        c.ok(view(t) == before, "operand-unchanged", before)
        c.ok(set(res.redirects) == set(m), "keys", (before, view(res)))
        for fd, mm in m.items():
            r = res.redirects.get(fd)
            if r is None:
                continue
            if mm[1] is redir.PIPE:
                w = bool(mm[2] & os.O_WRONLY)
                good = isinstance(r.source, int) and isinstance(r.pipe, int)
                if good:
                    acc = lambda x: fcntl.fcntl(x, fcntl.F_GETFL) & 3
                    good = acc(r.source) == (os.O_WRONLY if w else os.O_RDONLY) and acc(r.pipe) == (os.O_RDONLY if w else os.O_WRONLY) \
                        and os.fstat(r.source).st_ino == os.fstat(r.pipe).st_ino \
                        and all(fcntl.fcntl(x, fcntl.F_GETFD) & fcntl.FD_CLOEXEC for x in (r.source, r.pipe)) \
                        and not r.borrowed and (r.fd, r.flag, r.mode) == (mm[0], mm[2], mm[3])
                    os.close(r.source), os.close(r.pipe)
                c.ok(good, "pipe-entry", (mm, view1(r)))
            elif mm[1] in (redir.TMP, redir.STRING):
                good = isinstance(r.source, int) and type(r.pipe) is mm[1]
                if good:
                    a, b = os.fstat(r.source), os.stat(r.pipe.path)
                    good = (a.st_dev, a.st_ino) == (b.st_dev, b.st_ino) and not r.borrowed and (r.fd, r.flag, r.mode) == (mm[0], mm[2], mm[3])
                    os.close(r.source)
                    os.unlink(r.pipe.path)
                c.ok(good, "capture-entry", (mm, view1(r)))
            else:
                c.ok(view1(r) == mm, "plain-entry", (mm, view1(r)))
    for kind in (redir.TMP, redir.STRING):
        try:
            redir.Redirect(0, kind).make_pipe()
            c.ok(False, "capture-of-reader", kind)
        except Exception:
            c.ok(True, "capture-of-reader", kind)


@case("named access and deep copies")
def _(c):
    redir = load().redir
    t = redir.Redirects(redir.Redirect("stdin", "/a"), redir.Redirect("stderr", 5))
    c.ok(t.stdin.source == "/a" and t.stderr.source == 5, "names", view(t))
    try:
        t.stdout
        c.ok(False, "absent", view(t))
    except AttributeError:
        c.ok(True, "absent", view(t))
    d = redir.copy.deepcopy(t)
    c.ok(d is not None and view(d) == view(t), "deepcopy", view(t))
    for args in ((0,), (1,), (2,), ("stdin",), ("stdout",), ("stderr",)):
        r = redir.Redirect(*args, source="/x")
        c.ok(view1(r) == model(args[0], "/x"), "defaults", args)


main("random tables (targets 0..300 by number or name, sources of every kind, all flags) and sequences of up to 13 operations; "
     "non-trivial: every evaluation compares a whole table")

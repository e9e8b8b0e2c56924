"""C01 concretely: a small program reports the arguments, directory, variables
and pipe contents it was given; random command lines against the rules."""
from common import *

HELPER = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
extern char **environ;
static FILE *o;
static void put(const char *s, size_t n) { fprintf(o, "%zu:", n); fwrite(s, 1, n, o); }
int main(int argc, char **argv) {
  char cwd[8192]; char buf[65536];
  o = fopen(DUMP, "w");
  if (!o) return 99;
  int dfd = fileno(o);
  fprintf(o, "%d ", argc);
  for (int i = 0; i < argc; i++) put(argv[i], strlen(argv[i]));
  if (!getcwd(cwd, sizeof cwd)) cwd[0] = 0;
  put(cwd, strlen(cwd));
  int n = 0; while (environ[n]) n++;
  fprintf(o, "%d ", n);
  for (int i = 0; i < n; i++) put(environ[i], strlen(environ[i]));
  /* open descriptors, without our own */
  n = 0; for (int i = 0; i < 1024; i++) if (i != dfd && fcntl(i, F_GETFD) >= 0) n++;
  fprintf(o, "%d ", n);
  for (int i = 0; i < 1024; i++) if (i != dfd && fcntl(i, F_GETFD) >= 0) fprintf(o, "%d ", i);
  /* the pipes named by arguments */
  for (int i = 1; i < argc; i++) {
    char *p = strstr(argv[i], "/dev/fd/");
    if (!p) continue;
    int fd = atoi(p + 8);
    int fl = fcntl(fd, F_GETFL);
    struct stat st;
    if (fl < 0 || fstat(fd, &st) || !S_ISFIFO(st.st_mode)) { put("BAD", 3); continue; }
    if ((fl & O_ACCMODE) == O_RDONLY) {
      size_t k = 0; ssize_t r;
      while ((r = read(fd, buf + k, sizeof buf - k)) > 0) k += r;
      put(buf, k);
    } else {
      int r = dprintf(fd, "to %d\n", i);
      close(fd);
      put("WROTE", 5);
    }
  }
  fclose(o);
  return 0;
}
'''
PYHELPER = r'''#!/usr/bin/python3 -SEI
import os, sys, fcntl, stat
raw = open("/proc/self/cmdline", "rb").read().split(b"\0")[:-1]
argv = raw[2:] if raw[1].startswith(b"-S") else raw
k = [i for i, x in enumerate(raw) if x.endswith(b"/helper")][0]
argv = raw[k:]
put = lambda s: b"%d:" % len(s) + s
fds = [i for i in map(int, os.listdir("/proc/self/fd")) if os.path.exists("/proc/self/fd/%d" % i)]
env = open("/proc/self/environ", "rb").read().split(b"\0")[:-1]
o = open(DUMP, "wb")
o.write(b"%d " % len(argv) + b"".join(put(a) for a in argv) + put(os.getcwdb()) + b"%d " % len(env) + b"".join(put(e) for e in env))
fds = [f for f in sorted(fds) if not os.readlink("/proc/self/fd/%d" % f).endswith("helper")]
o.write(b"%d " % len(fds) + b"".join(b"%d " % f for f in fds))
for i, a in enumerate(argv):
    if i == 0 or b"/dev/fd/" not in a: continue
    fd = int(a.split(b"/dev/fd/")[1])
    try:
        fl = fcntl.fcntl(fd, fcntl.F_GETFL)
        assert stat.S_ISFIFO(os.fstat(fd).st_mode)
    except Exception:
        o.write(put(b"BAD")); continue
    if fl & 3 == 0:
        d = b""
        while True:
            b = os.read(fd, 65536)
            if not b: break
            d += b
        o.write(put(d))
    else:
        os.write(fd, b"to %d\n" % i); os.close(fd); o.write(put(b"WROTE"))
o.close()
'''


def setup():
    global pieshell, environ, redir, asyncio
    pieshell = load()
    from pieshell import environ, redir
    import asyncio


def helper(c):
    dump = os.path.join(c.dir, "dump")
    os.mkdir(os.path.join(c.dir, "bin"))
    h = os.path.join(c.dir, "bin", "helper")
    src = os.path.join(c.dir, "helper.c")
    with open(src, "w") as f:
        f.write(HELPER)
    try:
        r = subprocess.call(["gcc", "-O0", "-w", "-DDUMP=\"%s\"" % dump, "-o", h, src], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except OSError:
        r = 1
    if r:
        with open(h, "w") as f:
            f.write(PYHELPER.replace("DUMP", repr(dump)))
        os.chmod(h, 0o755)
    return h, dump


class Report(object):
    def __init__(self, dump):
        with open(dump, "rb") as f:
            self.d, self.p = f.read(), 0
        os.unlink(dump)
        self.argv = [self.s() for _ in range(self.i())]
        self.cwd = self.s()
        self.env = dict(e.split(b"=", 1) for e in [self.s() for _ in range(self.i())])
        self.fds = [self.i() for _ in range(self.i())]
        self.pipes = []
        while self.p < len(self.d):
            self.pipes.append(self.s())

    def until(self, ch):
        q = self.d.index(ch, self.p)
        r, self.p = self.d[self.p:q], q + 1
        return r

    def i(self):
        return int(self.until(b" "))

    def s(self):
        n = int(self.until(b":"))
        r, self.p = self.d[self.p:self.p + n], self.p + n
        return r


def run(p):
    async def go():
        await asyncio.wait_for(p.async_run_interactive(), 20)
    asyncio.get_event_loop().run_until_complete(go())


TEXTS = ["", "a", "a b", "-n", "--x=1", "é€", "line\nfeed", "'q'", '"dq"', "$HOME", "back\\slash", ";", "|", "x" * 300, "a=b", "\t", "true", "None", "_u_", "a-b"]


def arg(c):
    """(value, what it contributes)."""
    k = c.rng.randrange(7)
    if k == 0:
        s = c.rng.choice(TEXTS + ["*", "%(A)s", "~", "[x]", "~/x", "100%"])
        return environ.R(s), [s]
    if k == 1:
        n = c.rng.choice([0, 1, -5, 3.5, 10 ** 20, None, True, False])
        return n, n
    s = c.rng.choice(TEXTS)
    return s, [s]


def pipearg(c, n):
    lines = ["%d-%d" % (n, j) for j in range(c.rng.choice([0, 1, 3, 40]))]
    data = "".join(l + "\n" for l in lines).encode()
    k = c.rng.randrange(6)
    if k == 0:
        return list(lines), data, None
    if k == 1:
        return iter(lines), data, None
    if k == 2:
        return (l for l in lines), data, None
    if k == 3:
        got = []

        async def fn(inp):
            async for x in inp:
                got.append(x)
        return fn2(got), None, got
    if k == 4:
        return ENV.sh("-c", environ.R("".join("echo %s;" % l for l in lines) or ":")), data, None
    got = []
    return Obj(got).meth, None, got


def fn2(got):
    async def consume(inp):
        async for x in inp:
            got.append(x)
        if False:
            yield None
    # an async generator function: a function argument
    return consume


class Obj(object):
    def __init__(self, got):
        self.got = got

    async def meth(self, inp):
        async for x in inp:
            self.got.append(x)
        if False:
            yield None


def options(c):
    kw, want = {}, []
    for name in c.rng.sample(["verbose", "dry_run", "a_b_c", "x", "_lead", "trail_", "N0"], c.rng.randrange(4)):
        v = c.rng.choice([True, False, "v", "two words", 7, "", environ.R("*"), None, 0, 1])
        kw[name] = v
        o = "--" + name.replace("_", "-")
        if v is True:
            want.append(o)
        elif v is not False:
            want.append("%s=%s" % (o, v.str if isinstance(v, environ.R) else v))
    return kw, want


ENV = None


@case("plain", timeout=120)
def _(c):
    """Arguments, options, directory and variables."""
    global ENV
    h, dump = helper(c)
    for it in range(140 if not THOROUGH else 600):
        exports = {"PATH": os.path.join(c.dir, "bin"), "A": "value", "E%d" % it: c.rng.choice(["", "x=y", "é", "a b"])}
        d = os.path.join(c.dir, c.rng.choice(["d", "d e", "d/é"]))
        os.makedirs(d, exist_ok=True)
        base = environ.env(exports=exports)
        ENV = env = base(cwd=d)
        env | None
        prog = c.rng.choice(["helper", h])
        p, want = env._(prog), [prog]
        for _ in range(c.rng.randrange(3)):
            pos, kw, add = [], {}, []
            for _ in range(c.rng.randrange(4)):
                v, w = arg(c)
                if not isinstance(w, list):
                    w = [w]
                    if not isinstance(v, str):
                        continue        # only strings are arguments of exec
                pos.append(v)
                add += w
            kw, kwant = options(c)
            p = p(*pos, **kw)
            want += add + kwant
        exports["E%d" % it] = "unrelated"       # the exports were copied
        env._exports["LATER"] = "set %d" % it
        inp = repr(p._arg)
        if c.rng.random() < 0.3:
            os.chdir(c.rng.choice(["/", c.dir, "/tmp"]))
        try:
            run(p)
            r = Report(dump)
        except BaseException as e:
            c.ok(False, "run", (inp, repr(e)[:200], str(e)[:300]))
            continue
        c.eq(r.argv, [w.encode() for w in want], "argv", inp)
        c.eq(r.cwd.decode(), d, "cwd", inp)
        c.eq(r.env, {k.encode(): v.encode() for k, v in env._exports.items()}, "environ", inp)
        c.ok(r.env.get(b"LATER") == b"set %d" % it and r.env.get(b"E%d" % it) != b"unrelated", "environ-own", inp)
        c.eq(r.fds, [0, 1, 2], "fds", inp)


@case("pipes", timeout=90)
def _(c):
    """Pipe arguments, among plain ones, options and redirections."""
    global ENV
    h, dump = helper(c)
    for it in range(60 if not THOROUGH else 300):
        exports = {"PATH": os.path.join(c.dir, "bin") + ":/usr/bin:/bin"}
        env = ENV = environ.env(cwd=c.dir, exports=exports)
        pos, want, kw = [], ["helper"], {}
        n = c.rng.choice([1, 1, 2, 3, 8])
        used = 0
        for k in range(n + c.rng.randrange(3)):
            if used < n and c.rng.random() < 0.8:
                v, data, got = pipearg(c, k)
                used += 1
                if c.rng.random() < 0.25:
                    kw["opt_%d" % k] = v
                    want.append(("--opt-%d=" % k, data, got, "kw"))
                else:
                    pos.append(v)
                    want.append(("", data, got, "pos"))
            else:
                s = c.rng.choice(TEXTS)
                pos.append(s)
                want.append(s)
        want = [w for w in want if not (isinstance(w, tuple) and w[3] == "kw")] + [w for w in want if isinstance(w, tuple) and w[3] == "kw"]
        p = env.helper(*pos, **kw)
        red = {}
        if c.rng.random() < 0.5:
            for fd in c.rng.sample([3, 4, 5, 9, 30], c.rng.randrange(1, 3)):
                fn = os.path.join(c.dir, "out%d" % fd)
                p = p | redir.Redirect(fd, fn, os.O_WRONLY | os.O_CREAT)
                red[fd] = fn
        stdin = None
        if c.rng.random() < 0.3:
            p = ["some", "input"] | p
        inp = ([type(x).__name__ for x in pos], sorted(kw), sorted(red))
        try:
            run(p)
            r = Report(dump)
        except BaseException as e:
            c.ok(False, "run", (inp, repr(e)[:200], str(e)[:300]))
            continue
        c.eq(len(r.argv), len(want), "argc", inp)
        seen, k = [], 0
        for a, w in zip(r.argv, want):
            if not isinstance(w, tuple):
                c.eq(a, w.encode(), "argv", inp)
                continue
            m = re.fullmatch(rb"(.*)/dev/fd/(\d+)", a, re.S)
            c.ok(m is not None and m.group(1).decode() == w[0], "path", (inp, a))
            if not m:
                continue
            fd = int(m.group(2))
            c.ok(fd not in seen and fd > 2 and fd not in red, "collision", (inp, a, seen, sorted(red)))
            seen.append(fd)
            got = r.pipes[k] if k < len(r.pipes) else None
            if w[1] is not None:
                c.eq(got, w[1], "pipe-content", (inp, a))
            else:
                c.eq(got, b"WROTE", "pipe-direction", (inp, a))
                c.eq(w[2], ["to %d" % r.argv.index(a)], "function-input", (inp, a))
            k += 1
        c.eq(r.fds, sorted({0, 1, 2} | set(seen) | set(red)), "fds", inp)


@case("globs")
def _(c):
    """Every match of a pattern is one argument, in its place; options once per match."""
    h, dump = helper(c)
    for n in ("f1", "f 2", "f3", "g"):
        open(os.path.join(c.dir, n), "w").close()
    env = environ.env(cwd=c.dir, exports={"PATH": os.path.join(c.dir, "bin")})
    env | None
    os.chdir("/")
    for pat, m in (("f*", ["./f1", "./f 2", "./f3"]), ("g*", ["./g"]), ("none*", ["none*"]), ("f?", ["./f1", "./f3"]), ("[fg]3", ["./f3"]),
                   (environ.R("f*"), ["f*"]), (c.dir + "/f*", ["./f1", "./f 2", "./f3"])):
        run(env.helper("before", pat, "after", pat, the_opt=pat, last=True))
        a = [x.decode() for x in Report(dump).argv]
        k = len(m)
        inp = (repr(pat), a)
        c.ok(len(a) == 4 + 3 * k, "count", inp)
        if len(a) == 4 + 3 * k:
            c.ok(a[:2] == ["helper", "before"] and a[2 + k] == "after" and a[-1] == "--last", "places", inp)
            c.ok(sorted(a[2:2 + k]) == sorted(m) and sorted(a[3 + k:3 + 2 * k]) == sorted(m), "positional", inp)
            c.ok(sorted(a[3 + 2 * k:3 + 3 * k]) == sorted("--the-opt=" + x for x in m), "option", inp)


@case("cd")
def _(c):
    """The program runs in the environment's directory, wherever that moved."""
    h, dump = helper(c)
    for d in ("a", "a/b", "e f"):
        os.makedirs(os.path.join(c.dir, d), exist_ok=True)
    env = environ.env(cwd=c.dir, exports={"PATH": os.path.join(c.dir, "bin")})
    env | None
    want = c.dir
    for d in ["a", "b", "..", "../e f", ".", c.dir, "a/b", ".."]:
        +env.cd(d)
        want = os.path.normpath(os.path.join(want, d))
        run(env.helper("x"))
        r = Report(dump)
        c.eq((r.cwd.decode(), r.argv), (want, [b"helper", b"x"]), "cwd", d)
        other = env[c.dir]
        other | None
        run(other.helper)
        c.eq(Report(dump).cwd.decode(), c.dir, "derived", d)


@case("os-environ")
def _(c):
    """Without exports of its own, an environment exports os.environ, current at the time of running."""
    h, dump = helper(c)
    os.environ["PATH"] = os.path.join(c.dir, "bin") + ":" + os.environ["PATH"]
    env = environ.Environment(cwd=c.dir)
    env | None
    for k in range(4):
        os.environ["NEW%d" % k] = "v%d" % k
        run(env.helper)
        c.eq(Report(dump).env, {a.encode(): b.encode() for a, b in os.environ.items()}, "environ", k)
    d = env(exports={"PATH": os.environ["PATH"], "ONLY": "1"})
    run(d.helper)
    c.eq(Report(dump).env, {b"PATH": os.environ["PATH"].encode(), b"ONLY": b"1"}, "given", None)


main("a reporting program run with random command lines; argv, cwd, environ, open descriptors and the contents of every pipe argument compared with the rules", setup)

"""C02 concretely: expansion against an independent matcher, in random trees
with awkward names, from directories with awkward names."""
from common import *
import re


def setup():
    global pieshell, environ, redir
    pieshell = load()
    from pieshell import environ, redir


NAMES = ["a", "b", "ab", "a*b", "[x]", "x", "?", "a b", ".hid", "c.py", "d.py", "~u", "[", "*", "é", "100%"]


def seg_match(pat, name):
    """One path component against a shell pattern (no brace, no negation)."""
    if name.startswith(".") and not pat.startswith("."):
        return False
    rx, i = "", 0
    while i < len(pat):
        ch = pat[i]
        if ch == "*":
            rx += ".*"
        elif ch == "?":
            rx += "."
        elif ch == "[":
            j = pat.find("]", i + 2)
            if j < 0:
                rx += r"\["
            else:
                rx += "[" + re.escape(pat[i + 1:j]) + "]"
                i = j
        else:
            rx += re.escape(ch)
        i += 1
    return re.fullmatch(rx, name, re.S) is not None


def magic(s):
    return any(ch in s for ch in "*?[")


def norm(comps):
    out = []
    for x in comps:
        if x in ("", "."):
            continue
        if x == "..":
            out = out[:-1]
        else:
            out.append(x)
    return out


def matches(cwd, pat):
    """Existing paths matching pat taken below cwd (literal)."""
    lit = [] if pat.startswith("/") else [(x, True) for x in cwd.split("/") if x]
    comps = []
    for x, l in lit + [(x, False) for x in pat.split("/")]:
        if x in ("", "."):
            continue
        if x == ".." and not l:
            comps = comps[:-1]
        else:
            comps.append((x, l))
    found = ["/"]
    for x, l in comps:
        new = []
        for d in found:
            if l or not magic(x):
                p = os.path.join(d, x)
                if os.path.lexists(p):
                    new.append(p)
            elif os.path.isdir(d):
                new += [os.path.join(d, n) for n in os.listdir(d) if seg_match(x, n)]
        found = new
    return found


def want_args(env, vars_, text):
    x = re.sub(r"%\((\w+)\)s", lambda m: vars_[m.group(1)], text).replace("%%", "%")
    x = os.path.expanduser(x)
    if not magic(x):
        return [x]
    m = matches(env._cwd, x)
    if not m:
        return [x]
    if env._cwd == "/":
        return sorted(m)
    return sorted("./" + p[len(env._cwd) + 1:] if p.startswith(env._cwd + "/") else p for p in m)


def tree(c, d, depth=0):
    for n in c.rng.sample(NAMES, 7):
        p = os.path.join(d, n)
        if c.rng.random() < .45 and depth < 3:
            os.mkdir(p)
            tree(c, p, depth + 1)
        else:
            open(p, "w").close()


def dirs(d):
    return [r for r, _, _ in os.walk(d)]


@case("strings")
def _(c):
    os.environ["HOME"] = c.dir
    for t in range(6):
        root = os.path.join(c.dir, c.rng.choice(["t%d", "[a-z]%d", "q?%d", "s*%d", "~%d", "sp ace%d"]) % t)
        os.mkdir(root)
        tree(c, root)
        for x in ("ab", "abc"):      # a sibling whose name has the directory's name as a prefix
            os.makedirs(root + "/" + x + "dir", exist_ok=True)
            open(root + "/" + x + "dir/f.py", "w").close()
        ds = dirs(root)
        for n in range(120):
            cwd = c.rng.choice(ds)
            os.chdir(c.rng.choice(ds))
            vars_ = {"V": c.rng.choice(["a", "*", "x y", "", "~", "[x]", "/", "%d", "%(W)s"]), "W": c.rng.choice(["b", "?", c.dir]), "PATH": "/bin"}
            env = environ.Environment(cwd=cwd, exports=dict(vars_))
            local = dict(vars_)
            if c.rng.random() < .5:
                scope = environ.EnvScope(env=env)
                scope["env"] = env
                if c.rng.random() < .5:
                    local["L"] = "ab"
                    scope["L"] = "ab"
            parts = []
            for k in range(c.rng.randrange(1, 4)):
                r = c.rng.random()
                if r < .25:
                    parts.append("".join(c.rng.choice(["*", "?", "a", "b", ".py", "[ab]", "[x]", "x"]) for j in range(c.rng.randrange(1, 4))))
                elif r < .4:
                    parts.append(c.rng.choice(["..", ".", "~", "%(V)s", "%(W)s", "x%(V)s" , "100%%"]))
                else:
                    parts.append(c.rng.choice(NAMES).replace("%", "%%"))
            text = "/".join(parts)
            if c.rng.random() < .1:
                text = cwd.replace("%", "%%") + "/" + text
            if "L" in local and c.rng.random() < .3:
                text = "%(L)s*" if c.rng.random() < .5 else text + "%(L)s"
            inp = {"arg": text, "cwd": cwd, "vars": local}
            try:
                got = env._expand_argument(text)
            except Exception as e:
                got = "raises %r" % e
            c.eq(sorted(got) if isinstance(got, list) else got, want_args(env, local, text), "expansion", inp)
            c.eq(env._expand_argument(environ.R(text)), [text], "R is verbatim", inp)
            p = c.rng.choice(parts + ["", "~/x", "~nosuchuserx"])
            h = os.path.expanduser(p)
            c.eq(env._expand_path(p), os.path.normpath(h if h.startswith("/") else env._cwd.rstrip("/") + "/" + h), "path", {"path": p, "cwd": cwd})
        os.chdir(c.dir)


@case("the root directory")
def _(c):
    env = environ.Environment(cwd="/", exports={})
    for p in ("*", "/e*", "b?n", "etc", "nosuch*"):
        got = env._expand_argument(p)
        want = want_args(env, {}, p)
        # at the root paths may be given absolute or relative
        c.eq(sorted(os.path.abspath(os.path.join("/", x)) for x in got) if magic(p) and got != [p] else got,
             sorted(want) if magic(p) else want, "root", p)


@case("other values")
def _(c):
    env = environ.Environment(cwd=c.dir, exports={})
    open(os.path.join(c.dir, "f1"), "w").close()
    for v in (1, None, b"*", 2.5, True, ["*"], ("*",), object(), len, {"a": 1}):
        got = env._expand_argument(v)
        c.ok(len(got) == 1 and got[0] is v, "verbatim", repr(v))
    for t in ("*", "~", "%(x)s", "%", "[", "", "f?"):
        c.eq(env._expand_argument(environ.R(t)), [t], "R", t)


@case("arguments reach the program")
def _(c):
    for d in ("w*", "w1", "w2"):
        os.mkdir(os.path.join(c.dir, d))
    open(os.path.join(c.dir, "w*", "only"), "w").close()
    open(os.path.join(c.dir, "w1", "wrong"), "w").close()
    env = environ.Environment(cwd=os.path.join(c.dir, "w*"), exports={"PATH": os.environ["PATH"], "N": "val"})
    c.eq(list(env.printf("%s\\n" .replace("%", "%%"), "*", environ.R("*"), "%(N)s", environ.R("%(N)s"), "z*")), ["./only", "*", "val", "%(N)s", "z*"], "printf", "*")
    c.eq(list(env["../w1"].printf("%%s\\n", "*")), ["./wrong"], "derived directory", "*")


main("random trees, directories and variable values with glob characters, spaces, ~ and % in their names, 720 random arguments each, compared "
     "with an independent matcher; non-trivial: most patterns match something", setup)

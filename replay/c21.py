"""C21 concretely: search paths against a model, and real imports."""
from common import *
import importlib


def setup():
    global pieshell, environ, module
    pieshell = load()
    from pieshell import environ, module


def finder():
    mine = [f for f in sys.meta_path if type(f) is module.Finder]
    assert len(mine) == 1
    return mine[0]


class Elsewhere(object):
    """a search path that is no list"""

    def __init__(self, p):
        self.p = p

    def __iter__(self):
        return iter(self.p)


@case("finding")
def _(c):
    c.ok(sum(type(f) is module.Finder for f in sys.meta_path) == 1, "one finder is registered", None)
    f = finder()
    names = ["m", "n", "mm", "os2"]
    for k in range(12 if not THOROUGH else 60):
        top = os.path.join(c.dir, "t%d" % k)
        dirs = ["a", "b", "a/b", "c d", "%s", "e.pysh"]
        for d in [""] + dirs:
            os.makedirs(os.path.join(top, d))
            for n in names:
                r = c.rng.random()
                if r < .3:
                    with open(os.path.join(top, d, n + ".pysh"), "w") as fd:
                        fd.write("x = 1\n")
                elif r < .4 and not os.path.exists(os.path.join(top, d, n + ".pysh")):
                    os.mkdir(os.path.join(top, d, n + ".pysh"))
                elif r < .5:
                    with open(os.path.join(top, d, n + ".py"), "w") as fd:
                        fd.write("x = 1\n")
                elif r < .6:
                    os.symlink("nowhere" if r < .55 else os.path.join(top, d), os.path.join(top, d, n + ".pysh"))
        os.chdir(top)
        for j in range(60):
            entries = [c.rng.choice(["", top, "missing", "."] + dirs + [os.path.join(top, d) for d in dirs]) for i in range(c.rng.randrange(6))]
            name = c.rng.choice(names)
            full = c.rng.choice(["", "", "p.", "p.q.", "m.", "n.m."]) + name
            want = None
            for e in entries:
                p = os.path.join(e or ".", name + ".pysh")
                if os.path.isfile(p):
                    want = p
                    break
            how = c.rng.randrange(5)
            if how == 0:
                old = sys.path[:]
                sys.path[:] = entries
                try:
                    got = f.find_module(full) if c.rng.random() < .5 else f.find_module(full, None)
                finally:
                    sys.path[:] = old
            elif how == 1:
                got = f.find_module(full, entries)
            elif how == 2:
                got = f.find_module(full, tuple(entries))
            elif how == 3:
                got = f.find_module(full, Elsewhere(entries))
            else:
                e = c.rng.choice([""] + dirs)
                p = os.path.join(e or ".", name + ".pysh")
                want = p if os.path.isfile(p) else None
                entries = e
                got = f.find_module(full, e)
            inp = {"name": full, "path": entries, "how": how}
            if want is None:
                c.ok(got is None, "nothing", inp)
            else:
                c.ok(got is not None and os.path.normpath(got.path) == os.path.normpath(want), "the first file", dict(inp, got=got and got.path, want=want))
    os.chdir(c.dir)


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(s)
    importlib.invalidate_caches()


NAMES = ["a", "b", "value", "PIEA", "PIEB", "len", "print", "x_y", "_hidden", "R", "ls"]


class Mod(object):
    """model of a module"""

    def __init__(self, name):
        self.name, self.vars, self.exports = name, {}, {}

    def write(self, n, v):
        if n in self.exports:
            self.vars.pop(n, None)
            self.exports[n] = v
        else:
            self.vars[n] = v


@case("import histories", timeout=120)
def _(c):
    shell = environ.envScope
    counter = []
    builtins.pie_ran = counter.append
    shell["env"]._exports["PIEA"] = "shell"
    base = os.path.join(c.dir, "lib")
    os.makedirs(base)
    sys.path.insert(1, base)
    serial = 0
    for rnd in range(25 if not THOROUGH else 150):
        shell_vars = {n: object() for n in c.rng.sample(NAMES, 3) if n not in ("PIEA",)}
        for n, v in shell_vars.items():
            shell[n] = v
        hist = []
        mods = []

        def verify(inp):
            for n, v in shell_vars.items():
                c.ok(dict.get(shell, n) is v, "the shell's variables stay", dict(inp, name=n))
            c.ok("PIEA" not in os.environ and "PIEB" not in os.environ and "PIEB" not in shell["env"]._exports and shell["env"]._exports["PIEA"] == "shell", "the shell's exports stay", inp)
            c.ok(shell["env"]._scope in (None, shell), "the shell's environment keeps its scope", inp)
            for mo, m in mods:
                for n in NAMES:
                    got = getattr(mo, n)
                    i = dict(inp, module=m.name, name=n, got=repr(type(got)))
                    if n in m.vars:
                        c.ok(got is m.vars[n] or got == m.vars[n], "variable", i)
                    elif n in m.exports:
                        c.ok(got == m.exports[n], "exported variable", i)
                    elif hasattr(builtins, n):
                        c.ok(got is getattr(builtins, n), "builtin", i)
                    else:
                        c.ok(isinstance(got, pieshell.Pipeline) and got._env is mo.env and got._arg == [n], "command of its environment", i)
                d = set(x for x in dir(mo) if not (x.startswith("__") and x.endswith("__")))
                c.ok(d == set(m.vars) | {"env", "read_", "set_"}, "exactly the names its code defined", dict(inp, module=m.name, got=sorted(d), want=sorted(m.vars)))
                c.ok(mo.env is not shell["env"] and all(mo.env is not o.env and mo.env._exports is not o.env._exports for o, _ in mods if o is not mo), "an environment of its own", inp)
                c.ok(mo.env._interactive == shell["env"]._interactive and mo.env._cwd == shell["env"]._cwd, "derived from the shell's", inp)
        for step in range(c.rng.randrange(2, 12)):
            op = c.rng.random()
            if op < .4 or not mods:
                serial += 1
                name = "pm%d_%d" % (rnd, serial)
                kind = c.rng.randrange(4)
                if kind == 0:
                    full, p = name, os.path.join(base, name + ".pysh")
                elif kind == 1:
                    write(os.path.join(base, "pk%d" % serial, "__init__.py"), "")
                    full, p = "pk%d.%s" % (serial, name), os.path.join(base, "pk%d" % serial, name + ".pysh")
                elif kind == 2:
                    full, p = "ns%d.%s" % (serial, name), os.path.join(base, "ns%d" % serial, name + ".pysh")
                else:
                    full, p = "ns%d.s.%s" % (serial, name), os.path.join(base, "ns%d" % serial, "s", name + ".pysh")
                m = Mod(full)
                m.exports["PIEA"] = "shell"
                src = ["pie_ran(%r)" % full]
                for i in range(c.rng.randrange(4)):
                    n = c.rng.choice(NAMES)
                    v = "%s%d" % (name, i)
                    src.append("%s = %r" % (n, v))
                    m.write(n, v)
                src += ["def read_(n):", "    return eval(n, globals())", "def set_(n, v):", "    globals()[n] = v", ""]
                write(p, "\n".join(src))
                hist.append(("import", full, src[1:-5]))
                n0 = len(counter)
                mo = importlib.import_module(full)
                c.ok(counter[n0:] == [full], "its code runs once", hist)
                c.ok(mo is sys.modules[full] and isinstance(mo, module.Module), "kept", hist)
                mods.append((mo, m))
            else:
                mo, m = c.rng.choice(mods)
                n = c.rng.choice(NAMES)
                v = "v%d_%d" % (rnd, step)
                if op < .6:
                    hist.append(("set from outside", m.name, n))
                    setattr(mo, n, v)
                    m.write(n, v)
                    c.ok(mo.read_(n) == v, "its functions see it", hist)
                elif op < .75:
                    hist.append(("set from inside", m.name, n))
                    mo.set_(n, v)
                    m.write(n, v)
                    c.ok(getattr(mo, n) == v, "attribute", hist)
                elif op < .85:
                    hist.append(("export", m.name))
                    mo.env._exports["PIEB"] = v
                    m.exports["PIEB"] = v
                else:
                    hist.append(("again", m.name))
                    n0 = len(counter)
                    c.ok(importlib.import_module(m.name) is mo and counter[n0:] == [], "imported once", hist)
            verify({"history": hist})
        for n in shell_vars:
            dict.pop(shell, n, None)
    sys.path.remove(base)


@case("nothing to import")
def _(c):
    base = os.path.join(c.dir, "lib")
    os.makedirs(os.path.join(base, "nspace"))
    write(os.path.join(base, "pack", "__init__.py"), "")
    write(os.path.join(base, "mod.pysh"), "x = 1\n")
    os.mkdir(os.path.join(base, "dirmod.pysh"))
    sys.path.insert(1, base)
    import mod
    for name in ("pienone", "pack.pienone", "nspace.pienone", "mod.pienone", "mod.x", "dirmod", "pienone.mod", "nspace.mod"):
        try:
            importlib.import_module(name)
            c.ok(False, "no module", name)
        except ImportError:
            c.ok(name not in sys.modules, "no module", name)
        except Exception as e:
            c.ok(False, "no module", {"name": name, "got": repr(e)})


@case("import statements")
def _(c):
    base = os.path.join(c.dir, "lib")
    other = os.path.join(c.dir, "other")
    write(os.path.join(base, "one.pysh"), "import os\nx = 1\ny = [2]\n_z = 3\nPIEA = 'mod'\ndef f(a=5):\n    return (x, a)\nclass K(object):\n    v = x\n")
    write(os.path.join(base, "two.pysh"), "from one import *\nimport one\nx2 = x + 1\n__all__ = ['x2']\nhidden = 1\n")
    write(os.path.join(base, "docs.pysh"), "'''text'''\nq = 1")
    write(os.path.join(base, "empty.pysh"), "")
    write(os.path.join(base, "comment.pysh"), "# nothing\n")
    write(os.path.join(base, "noend.pysh"), "if True:\n    x = 7")
    write(os.path.join(base, "both.py"), "w = 'py'\n")
    write(os.path.join(base, "both.pysh"), "w = 'pysh'\n")
    write(os.path.join(other, "one.pysh"), "x = 'wrong'\n")
    write(os.path.join(c.dir, "here.pysh"), "x = 'cwd'\n")
    sys.path[1:1] = [base, other]
    shell = environ.envScope["env"]
    shell._exports["PIEA"] = "shell"
    a = {}
    exec("from one import *", a)
    got = {k for k in a if not k.startswith("__")}
    c.eq(got, {"os", "x", "y", "f", "K"}, "import *")
    import one, two
    c.ok(a["y"] is one.y and a["f"] is one.f and one.f() == (1, 5) and one.K.v == 1, "objects", None)
    b = {}
    exec("from two import *", b)
    c.eq({k for k in b if not k.startswith("__")}, {"x2"}, "import * with __all__")
    c.ok(two.x2 == 2 and two.y is one.y and two.hidden == 1, "modules import modules", None)
    d = {}
    exec("from one import x as q, f, PIEA", d)
    c.ok(d["q"] == 1 and d["f"] is one.f and d["PIEA"] == "mod" and shell._exports["PIEA"] == "shell" and "PIEA" not in os.environ, "from import", None)
    one.x = 10
    c.ok(one.f() == (10, 5) and two.x == 1, "an assigned attribute is its variable, not another's", None)
    import docs, empty, comment, noend
    c.ok(docs.q == 1 and noend.x == 7, "files", None)
    for m in (one, two, docs, empty, comment, noend):
        for n in ("__path__", "__wrapped__", "__none__", "__iter__"):
            c.ok(not hasattr(m, n), "no special names", (m.__name__, n))
        c.ok(m.env._scope is dict.__getitem__(m._scope, "env")._scope and m.env._scope is m._scope, "the environment knows the module's variables", m.__name__)
    import both
    c.eq(both.w, "py", "python modules first")
    os.chdir(c.dir)
    sys.path.insert(0, "")
    import here
    c.eq(here.x, "cwd", "the current directory")
    write(os.path.join(base, "fmt.pysh"), "word = 'hello'\nr = list(echo('%(word)s', 'x'))\n")
    import fmt
    c.eq(fmt.r, ["hello x"], "commands with the module's variables")


@case("loading again")
def _(c):
    p = os.path.join(c.dir, "again.pysh")
    write(p, "n = 1\n")
    sys.path.insert(1, c.dir)
    import again
    env = again.env
    again.kept = 5
    write(p, "n = 2\n")
    ld = finder().find_module("again")
    m = ld.load_module("again")
    c.ok(m is again and sys.modules["again"] is again, "same object", None)
    c.ok(again.n == 2 and again.kept == 5 and again.env is env, "runs in the same scope", None)
    # a loader under another name gives another module
    m2 = ld.load_module("p.q.again2")
    c.ok(m2 is not again and m2.n == 2 and sys.modules["p.q.again2"] is m2 and m2.env is not env and m2.env._exports is not env._exports, "another module", None)
    m2.n = 3
    c.eq(again.n, 2, "modules are separate")


main("random directory trees with files, directories, links and broken links named NAME.pysh, all kinds of search paths; random histories of real imports and assignments from both sides over names that are local, exported, builtin or commands; every module and the shell compared with their models after each step", setup)

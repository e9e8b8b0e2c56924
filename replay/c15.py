"""C15 concretely: random histories of assignments and reads against a model."""
from common import *
import builtins


def setup():
    global pieshell, environ
    pieshell = load()
    from pieshell import environ


NAMES = ["a", "b", "HOME", "len", "print", "echo", "x_y", "Exception", "exports2", "LANG", "é", "env2", "last_statement", "int", "cd", "git"]


class Model(object):
    def __init__(self, exports, parent):
        self.local, self.exports, self.parent = {}, exports, parent

    def read(self, n):
        if n in self.local:
            return ("v", self.local[n])
        if n in self.exports:
            return ("v", self.exports[n])
        if self.parent is not None and n in self.parent:
            return ("v", self.parent[n])
        if hasattr(builtins, n):
            return ("v", getattr(builtins, n))
        return ("cmd", n)

    def write(self, n, v):
        if n in self.exports:
            self.local.pop(n, None)
            self.exports[n] = v
        else:
            self.local[n] = v


def same(got, want, env):
    kind, v = want
    if kind == "v":
        return got is v
    return isinstance(got, pieshell.Pipeline) and got._env is env and got._arg == [v]


@case("histories")
def _(c):
    for n in range(400):
        names = c.rng.sample(NAMES, 6)
        exports = {k: "e%d" % c.rng.randrange(100) for k in names if c.rng.random() < .4}
        exports["PATH"] = "/bin"
        parent = None
        r = c.rng.random()
        if r < .4:
            parent = {k: object() for k in names if c.rng.random() < .4}
        mex = dict(exports)
        env = environ.Environment(cwd=c.dir, exports=exports)
        kw = {"env": env}
        pm = None
        if parent is not None:
            if r < .2:
                penv = environ.Environment(cwd=c.dir, exports={"PATH": "/bin", "PEX": "1"})
                ps = environ.EnvScope(env=penv)
                for k, v in parent.items():
                    ps[k] = v
                kw["_parent_scope"] = ps
            else:
                kw["_parent_scope"] = dict(parent)
            pm = dict(parent)
        scope = environ.EnvScope(**kw)
        m = Model(mex, pm)
        hist = []
        envs = [(env, mex)]
        for step in range(c.rng.choice([1, 3, 10, 25])):
            op = c.rng.random()
            k = c.rng.choice(names)
            if op < .4:
                v = c.rng.choice([object(), "", None, 0, "s%d" % step, [1]])
                hist.append(("set", k, repr(v)))
                scope[k] = v
                m.write(k, v)
                c.ok(scope[k] is v, "read back", {"history": hist, "exports": list(mex)})
            elif op < .5:
                hist.append(("export", k))
                env._exports[k] = "x%d" % step
                m.exports[k] = env._exports[k]
            elif op < .55 and len(m.exports) > 1 and k in m.exports and k != "PATH":
                hist.append(("unexport", k))
                del env._exports[k]
                del m.exports[k]
            elif op < .6 and k in m.local:
                hist.append(("del", k))
                del scope[k]
                del m.local[k]
            elif op < .65:
                hist.append(("switch env",))
                ex2 = {"PATH": "/bin"}
                ex2.update({j: "f%d" % step for j in names if c.rng.random() < .3})
                env = environ.Environment(cwd=c.dir, exports=dict(ex2))
                if c.rng.random() < .5:
                    environ.EnvScope(env=env)["env"] = env
                    env._scope = {}
                scope["env"] = env
                m.exports = ex2
                c.ok(env._scope is scope, "scope of env", hist)
            else:
                hist.append(("get", k))
                c.ok(same(scope[k], m.read(k), env), "read", {"history": hist, "exports": {a: repr(b) for a, b in m.exports.items()}, "got": repr(type(scope[k]))})
            c.ok(scope["env"] is env and scope["exports"] is env._exports, "env", hist)
        for k in names:
            c.ok(same(scope[k], m.read(k), env), "final read", {"history": hist, "name": k})
        c.ok(all(env._exports[k] is v for k, v in m.exports.items()) and set(env._exports) == set(m.exports), "exports", {"history": hist, "exports": repr(env._exports), "expected": repr(m.exports)})
        listed = list(scope.keys())
        c.ok(all(k in listed for k in list(m.local) + list(m.exports) + ["env"]), "keys", {"history": hist})
        c.ok(all(k in list(scope) for k in list(m.local) + list(m.exports)), "iter", {"history": hist})
        if pm is not None:
            got = {k: dict.__getitem__(kw["_parent_scope"], k) for k in pm}
            c.ok(all(got[k] is pm[k] for k in pm), "enclosing scope untouched", hist)


@case("code run in a scope")
def _(c):
    exports = {"PATH": "/bin", "EXP": "1"}
    env = environ.Environment(cwd=c.dir, exports=exports)
    scope = environ.EnvScope(env=env)
    code_ = "a = 5\nEXP = 'two'\nb = len([1, 2]) + a\nlen2 = len\ndef f(x):\n    global gg\n    gg = x\n    return x + a\nr = f(1)\n"
    exec(compile(code_, "t", "exec"), scope) if False else scope.execute_file(write(c, "t.pysh", code_))
    c.eq(dict.get(scope, "a"), 5, "a")
    c.eq(exports["EXP"], "two", "exported")
    c.ok("EXP" not in dict.keys(scope), "not local", list(dict.keys(scope)))
    c.eq(scope["b"], 7, "b")
    c.eq(scope["EXP"], "two", "EXP")
    fn = scope["env"].pyshfunction(lambda: None)
    c.ok(dict.__getitem__(fn.__globals__, "env") is env, "pyshfunction", "env")


def write(c, name, text):
    p = os.path.join(c.dir, name)
    with open(p, "w") as f:
        f.write(text)
    return p


@case("os.environ")
def _(c):
    env = environ.Environment(cwd=c.dir)
    scope = environ.EnvScope(env=env)
    os.environ["PYVC_T"] = "0"
    scope["PYVC_T"] = "1"
    c.eq(os.environ["PYVC_T"], "1", "assigned")
    c.eq(scope["PYVC_T"], "1", "read")
    scope["PYVC_U"] = "2"
    c.ok("PYVC_U" not in os.environ, "local", "PYVC_U")
    del os.environ["PYVC_T"]
    c.ok(isinstance(scope["PYVC_T"], pieshell.Pipeline), "gone", "PYVC_T")


main("random histories of up to 25 assignments, exports, deletions, environment switches and reads over 17 names (builtins, commands, exports); "
     "non-trivial: every read is compared by identity with a model", setup)

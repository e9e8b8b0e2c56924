"""C02 argument and path expansion."""
from pyvc.lib import *
from pyvc import paths
from pyvc.paths import a_dir, resolve, expanduser, abspath, join2
from pyvc.spec import Property

P = Property("C02", trusted=[
    "string formatting with a mapping (str % mapping), glob.glob and glob.escape are uninterpreted: what they are applied to and what is done with their results is proved",
    "os.path.join/isabs exact; expanduser and normpath uninterpreted functions with their laws for / and ~ (pyvc/paths.py)",
])
E = "pieshell.environ.Environment"
SS = z3.StringSort()
ESC = z3.Function("glob_escape", SS, SS)
SPECIAL = ("*", "?", "[")


def special(t):
    return z3.Or([z3.Contains(t, S(c)) for c in SPECIAL])


class World(object):
    def __init__(self, eng, scope=None):
        self.eng = eng
        sp = eng.spec = paths.install(eng.spec)
        self.env = eng.alloc(eng.cls(E))
        self.cwd = a_dir(eng, "cwd")
        self.exref = eng.new_dict(DictRep(SymDict(eng, "exports", SS, lambda k: VStr(z3.Function("ev", SS, SS)(k)), VStr)))
        self.scope = None
        if eng.choose(2, "scope") if scope is None else scope:
            self.scope = eng.alloc(eng.cls("pieshell.environ.EnvScope"), DictRep(
                SymDict(eng, "locals", SS, lambda k: VStr(z3.Function("lv", SS, SS)(k)), VStr), [(VStr("env"), self.env)]))
        for a, v in (("_exports_value", self.exref), ("_scope", self.scope or NONE), ("_cwd", VStr(self.cwd)),
                     ("_interactive", VBool(eng.fresh_bool("interactive")))):
            eng.set_raw(self.env, a, v)
        self.globs, self.formats = [], []
        self.vars = self.scope or self.exref
        self.g = z3.Function("globres", z3.IntSort(), SS)
        self.seq = SymSeq(eng, "glob", at=lambda i: VStr(self.g(i)))

        def mod(e, a, b):
            b = e.force(b)
            if not isinstance(b, Ref):
                raise Unsupported("formatting with something that is no mapping")
            self.formats.append(b)
            if e.choose(2, "formatting fails") == 1:
                e.raise_py("KeyError", "name")
            return VStr(z3.Function("format_%d" % b.oid, SS, SS)(a.t))

        def esc(e, v):
            t = e.force(v).t
            r = ESC(t)
            e.assume(z3.And(paths.sw(r, "/") == paths.sw(t, "/"), z3.Implies(z3.Not(special(t)), r == t), z3.SuffixOf(S("/"), r) == z3.SuffixOf(S("/"), t), (r == S("")) == (t == S(""))))
            return VStr(r)

        def glob(e, pattern, **kw):
            if any(k != "recursive" for k in kw):
                raise Unsupported("glob options")
            rec = kw.get("recursive")
            self.globs.append((e.force(pattern).t, z3.BoolVal(False) if rec is None else e.truthy(rec)))
            return e.new_list(Rope([Chunk(self.seq)]))
        sp.ext.update({"str.__mod__": mod, "glob.escape": esc, "glob.glob": glob, "glob.iglob": glob})
        sp.loops["glob.index"] = sp.loops["glob.enumerate"] = lambda e, L: Rewrite(self)

    def formatted(self, t):
        return z3.Function("format_%d" % self.vars.oid, SS, SS)(t)

    def rewritten(self, t):
        c = z3.Concat(self.cwd, S("/"))
        return z3.If(z3.And(self.cwd != S("/"), z3.PrefixOf(c, t)),
                     z3.Concat(S("./"), z3.SubString(t, z3.Length(c), z3.Length(t) - z3.Length(c))), t)


class Rewrite(LoopSpec):
    """A loop over the matches that rewrites the list in place."""

    def __init__(self, w):
        self.w = w

    def oids(self, L):
        return [m[1] for m in L.mods if m[0] == "content" and m[1] in L.entry["heap"] and isinstance(L.entry["heap"][m[1]].content, Rope)]

    def havoc_assume(self, L):
        w, i = self.w, L.i
        for o in self.oids(L):
            seq = SymSeq(w.eng, "glob", n=w.seq.n, at=lambda j: VStr(z3.If(j < i, w.rewritten(w.g(j)), w.g(j))))
            w.eng.heap[o].content = Rope([Chunk(seq)])

    def check(self, L, i):
        w, eng = self.w, self.w.eng
        for o in self.oids(L):
            c = eng.heap[o].content
            eng.prove(c.length() == w.seq.n, "rewriting keeps the number of matches")
            j = eng.fresh_int("j")
            eng.assume(z3.And(j >= 0, j < w.seq.n))
            v = models.rope_getitem(eng, c, VInt(j), VTuple)
            eng.prove(eng.eq(v, VStr(z3.If(j < i, w.rewritten(w.g(j)), w.g(j)))), "matches rewritten so far, others untouched")


@P.target("R(...) and non-strings are verbatim", functions=[E + "._expand_argument"])
def _(eng):
    w = World(eng)
    k = eng.choose(7, "argument")
    t = eng.fresh_str("text")
    arg = [lambda: eng.new_obj(eng.cls("pieshell.environ.R"), str=VStr(t)),
           lambda: VInt(eng.fresh_int("n")), lambda: NONE, lambda: VBool(eng.fresh_bool("b")),
           lambda: VBytes(eng.fresh_str("bytes")), lambda: VOpaque(eng.fresh_u("obj"), types=["?", "-str", "-pieshell.environ.R"], attrs=["?"], label="obj"),
           lambda: eng.new_list(Rope([Elems([VStr(t)])]))][k]()
    res = models.iter_rope(eng, eng.call(eng.getattr(w.env, "_expand_argument"), [arg]))
    eng.prove(res.is_concrete and len(res.concrete()) == 1, "exactly one argument")
    eng.prove(eng.same(res.concrete()[0], VStr(t) if k == 0 else arg), "verbatim")
    eng.prove(not w.globs and not w.formats, "no expansion")


@P.target("strings: variables, ~, patterns in the environment's directory", functions=[E + "._expand_argument"])
def _(eng):
    w = World(eng)
    t = eng.fresh_str("arg")
    eng.inputs.append(("arg", t))
    p0 = paths.cwd(eng)
    try:
        res = models.iter_rope(eng, eng.call(eng.getattr(w.env, "_expand_argument"), [VStr(t)]))
    except PyExc as e:
        eng.prove(len(w.formats) == 1 and is_exc(eng, e, "KeyError"), "fails only if formatting fails")
        return
    eng.prove(len(w.formats) == 1 and w.formats[0].oid == w.vars.oid, "formatted once, with the environment's variables")
    x = expanduser(eng, w.formatted(t))
    if not eng.decide(special(x), "pattern"):
        eng.prove(res.is_concrete and len(res.concrete()) == 1, "not a pattern: one argument")
        eng.prove(eng.eq(res.concrete()[0], VStr(x)), "not a pattern: the expanded text")
        return
    esc = ESC(w.cwd)
    pat = abspath(eng, join2(eng, esc, x))
    eng.prove(len(w.globs) == 1, "matched once")
    eng.prove(w.globs[0][0] == pat, "the pattern is taken below the environment's directory, itself literal")
    eng.prove(z3.Not(w.globs[0][1]), "the pattern is not recursive")
    if not eng.decide(w.seq.n > 0, "matches"):
        eng.prove(res.is_concrete and len(res.concrete()) == 1, "no match: one argument")
        eng.prove(eng.eq(res.concrete()[0], VStr(x)), "no match: the pattern itself")
        return
    eng.prove(res.length() == w.seq.n, "exactly the matching paths")
    i = eng.fresh_int("i")
    eng.assume(z3.And(i >= 0, i < w.seq.n))
    v = models.rope_getitem(eng, res, VInt(i), VTuple)
    eng.prove(eng.eq(v, VStr(w.rewritten(w.g(i)))), "each match, below the directory as ./...")
    eng.prove(eng.ghost["proccwd"].eq(p0), "the interpreter's directory is not changed")


@P.target("paths resolve against the environment's directory", functions=[E + "._expand_path"])
def _(eng):
    w = World(eng, scope=0)
    t = eng.fresh_str("path")
    eng.inputs.append(("path", t))
    res = eng.call(eng.getattr(w.env, "_expand_path"), [VStr(t)])
    eng.prove(eng.eq(res, VStr(resolve(eng, w.cwd, t))), "resolved against the environment's directory")


@P.target("env[path] and cd(path) take paths against the environment's directory", functions=[E + ".__getitem__", E + ".__call__", E + "._cd"])
def _(eng):
    w = World(eng, scope=0)
    t = eng.fresh_str("path")
    eng.set_raw(w.env, "_interactive", VBool(False))
    eng.set_raw(w.env, "_redirects", eng.new_obj(eng.cls("pieshell.redir.Redirects"), redirects=eng.new_dict(DictRep(None, []))))
    how = eng.choose(2, "how")
    eng.assume(z3.And(paths.EXISTS(w.cwd), paths.ISDIR(w.cwd)))
    want = resolve(eng, w.cwd, t)
    try:
        res = eng.call(eng.getattr(w.env, "_cd" if how else "__getitem__"), [VStr(t)])
    except PyExc as e:
        eng.prove(z3.Not(paths.ISDIR(want)), "fails only for missing directories")
        return
    eng.prove(eng.eq(eng.getattr(w.env if how else res, "_cwd"), VStr(want)), "resolved against the environment's directory")


@P.target("R protects exactly its text", functions=["pieshell.environ.R.__init__"])
def _(eng):
    v = VStr(eng.fresh_str("text"))
    r = eng.call(VClass(eng.cls("pieshell.environ.R")), [v])
    eng.prove(eng.eq(eng.getattr(r, "str"), v), "text kept")

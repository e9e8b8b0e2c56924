"""C21 importing .pysh files."""
from pyvc.lib import *
from pyvc import paths
from pyvc.paths import join2
from pyvc.spec import Property
from specs import c15

P = Property("C21", trusted=[
    "Python's import system asks the finders of sys.meta_path in turn, calls load_module of the loader found, and takes imported modules from sys.modules; that the finder is registered is checked by running imports",
    "types.ModuleType; os.path.isfile; code.InteractiveConsole(locals=scope).runsource(text, name, 'exec') runs text with scope as its variables",
    "C14's contract of env(): a derived environment shares nothing with the one it came from",
])
M = "pieshell.module."
E = "pieshell.environ.EnvScope"
SS = z3.StringSort()
ISFILE = z3.Function("isfile", SS, z3.BoolSort())


def spec():
    s = paths.install(base_spec())

    def isfile(eng, v):
        t = paths.text(eng, v)
        eng.assume(z3.Implies(ISFILE(t), z3.And(paths.EXISTS(t), z3.Not(paths.ISDIR(t)))))
        return VBool(ISFILE(t))
    s.ext["os.path.isfile"] = isfile
    return s


def last(eng, t):
    return models.last_part(eng, t, S("."))


class NotBefore(LoopSpec):
    """loop over the search path: no earlier entry has the file"""

    def __init__(self, hit, q):
        self.hit, self.q = hit, q

    def havoc_assume(self, L):
        L.eng.assume(z3.Implies(z3.And(0 <= self.q, self.q < L.i), z3.Not(self.hit(self.q))))
        L.eng.extstate["at"] = L.i

    def check(self, L, i):
        q = self.q
        if z3.is_int_value(i) and i.as_long() == 0:
            return
        L.eng.prove(z3.Implies(z3.And(0 <= q, q < i), z3.Not(self.hit(q))), "no earlier entry of the search path has the file")


def loader_path(eng, r, name):
    r = eng.force(r)
    ok = isinstance(r, Ref) and eng.class_of(r) is eng.cls(M + "Loader")
    eng.prove(ok, name)
    if not ok:
        raise PathEnd()
    return eng.force(eng.getattr(r, "path")).t


@P.target("finding: the first NAME.pysh along the search path", spec=spec, functions=[M + "Finder.find_module", M + "Loader.__init__"])
def _(eng):
    name = eng.fresh_str("name")
    eng.inputs.append(("name", name))
    pf = z3.Function("entry", z3.IntSort(), SS)
    kind = eng.choose(5, "search path: sys.path, list, tuple, iterable, string")
    eng.assume(z3.Not(z3.PrefixOf(S("/"), last(eng, name))))     # names of modules are identifiers
    fname = z3.Concat(last(eng, name), S(".pysh"))
    # two names of the file in the current directory
    eng.assume(ISFILE(z3.Concat(S("./"), fname)) == ISFILE(fname))

    def target(t):
        return join2(eng, t, fname)

    def is_target(p, t):
        return z3.Or(p == target(t), z3.And(t == S(""), p == z3.Concat(S("./"), fname)))
    q = eng.fresh_int("q")
    finder = eng.call(VClass(eng.cls(M + "Finder")), [])
    if kind == 4:
        t = eng.fresh_str("path")
        r = eng.call(eng.getattr(finder, "find_module"), [VStr(name), VStr(t)])
        if eng.decide(ISFILE(target(t)), "file there"):
            eng.prove(is_target(loader_path(eng, r, "a loader of it"), t), "of that file")
        else:
            eng.prove(isinstance(eng.force(r), VNone), "nothing without a file")
        return
    seq = SymSeq(eng, "searchpath", at=lambda i: VStr(pf(i)))
    n = seq.n
    rope = Rope([Chunk(seq)])
    hit = lambda i: ISFILE(target(pf(i)))
    eng.spec.loops["searchpath"] = NotBefore(hit, q)
    args = [VStr(name)]
    if kind == 0:
        ref = eng.new_list(rope)
        eng.spec.ext_attrs["sys.path"] = lambda e: ref
        if eng.choose(2, "path") == 1:
            args.append(NONE)
    elif kind == 1:
        args.append(eng.new_list(rope))
    elif kind == 2:
        args.append(VTuple(rope))
    else:
        args.append(VOpaque(eng.fresh_u("path"), types=["other"], label="path", methods={"$rope": lambda e, s: rope}))
    r = eng.force(eng.call(eng.getattr(finder, "find_module"), args))
    if isinstance(r, VNone):
        eng.prove(z3.Implies(z3.And(0 <= q, q < n), z3.Not(hit(q))), "nothing only if no entry has the file")
        return
    p = loader_path(eng, r, "a loader")
    k = eng.extstate.get("at")
    if k is None:
        raise Unsupported("the search is no loop over the path")
    eng.prove(z3.And(0 <= k, k < n), "of an entry")
    eng.prove(z3.And(hit(k), is_target(p, pf(k))), "of a file that is there")
    eng.prove(z3.Implies(z3.And(0 <= q, q < k), z3.Not(hit(q))), "the first along the path")


class World(object):
    """the shell, and modules imported before"""

    def __init__(self, eng, known):
        self.eng = eng
        sp = eng.spec
        C = eng.cls(E)
        w = self.shell = c15.World(eng, own=True, parent=False)
        w.interactive = eng.get_raw(w.env, "_interactive")
        eng.set_raw(w.env, "_scope", w.scope)
        eng.globals[("pieshell.environ", "envScope")] = w.scope
        self.derived = []

        def derive(e, env, *a, **kw):
            r = e.alloc(e.cls("pieshell.environ.Environment"))
            e.set_raw(r, "_scope", NONE)
            e.set_raw(r, "_exports_value", e.new_dict(DictRep(e.content(w.exref).base, list(e.content(w.exref).over))))
            self.derived.append((r, env, a, kw))
            return r
        sp.contracts["pieshell.environ.Environment.__call__"] = derive
        self.run = []

        def execute(e, scope, path):
            self.run.append((scope, path))
            if e.choose(2, "the module's code") == 1:
                self.boom = e.alloc(e.extclass("builtins.SystemExit"))
                raise PyExc(self.boom)
            return NONE
        sp.contracts[E + ".execute_file"] = execute
        self.boom = None

        def minit(e, m, name, doc=None):
            e.set_raw(m, "__name__", name)
            e.set_raw(m, "__doc__", doc if doc is not None else NONE)
            return NONE
        sp.ext_methods[(M + "Module", "__init__")] = minit
        sp.ext["types.ModuleType.__init__"] = minit
        for n in ("types.ModuleType.__setattr__", "builtins.object.__setattr__", "object.__setattr__"):
            sp.ext[n] = lambda e, o, n, v: (e.set_raw(o, models.sconst(n), v), NONE)[1]
        mf = z3.Function("module", SS, U)
        self.mods = SymDict(eng, "sysmodules", SS, lambda k: VOpaque(mf(k), types=["?"], label="module"), VStr)
        self.name = eng.fresh_str("fullname")
        self.mod = None
        over = []
        if known:
            self.mod, self.scope = module(eng, w.env)
            over = [(VStr(self.name), self.mod)]
        else:
            eng.assume(z3.Not(self.mods.has(self.name)))
        self.rep = DictRep(self.mods, over)
        self.modref = eng.new_dict(self.rep)
        sp.ext_attrs["sys.modules"] = lambda e: self.modref


def module(eng, env, locals_=None):
    """an imported module"""
    lf = z3.Function("modulelocal", SS, U)
    d = locals_ or SymDict(eng, "modlocals", SS, lambda k: VOpaque(lf(k), types=["?"], label="local"), VStr)
    scope = eng.alloc(eng.cls(E), DictRep(d, [(VStr("env"), env)]))
    m = eng.alloc(eng.cls(M + "Module"))
    eng.set_raw(m, "_scope", scope)
    return m, scope


@P.target("loading: a fresh scope with a derived environment, run once; an imported module stays",
          spec=spec, functions=[M + "Loader.load_module", M + "Module.__init__", E + ".__setitem__"])
def _(eng):
    known = eng.choose(2, "imported before") == 1
    w = World(eng, known)
    sh = w.shell
    path = eng.fresh_str("path")
    ld = eng.call(VClass(eng.cls(M + "Loader")), [VStr(path)])
    l0, e0 = eng.content(sh.scope), eng.content(sh.exref)
    s0 = eng.content(w.scope) if known else None
    try:
        r = eng.call(eng.getattr(ld, "load_module"), [VStr(w.name)])
    except PyExc as ex:
        eng.prove(w.boom is not None and eng.same(ex.value, w.boom), "fails only as its code does")
        r = None
    # everything else is as it was
    eng.prove(eng.content(sh.scope) is l0 and eng.content(sh.exref) is e0, "no variable of the shell is assigned")
    eng.prove(eng.same(eng.get_raw(sh.env, "_scope"), sh.scope), "the shell's environment keeps its variables")
    other = eng.fresh_str("other")
    eng.assume(other != w.name)
    now = eng.content(w.modref)
    eng.prove(models.dict_has(eng, now, VStr(other)) == w.mods.has(other), "no other module appears or goes")
    if eng.decide(w.mods.has(other), "another module"):
        eng.prove(eng.same(models.dict_find(eng, now, VStr(other)), w.mods.value(other)), "other modules stay")
    if r is None:
        m = models.dict_find(eng, now, VStr(w.name))
        if m is None:
            return
    else:
        m = eng.force(r)
        got = models.dict_find(eng, now, VStr(w.name))
        eng.prove(got is not None and eng.same(got, m), "importing gives the module kept under its name")
    if known:
        eng.prove(eng.same(m, w.mod), "an imported module is the same object")
        scope = w.scope
        eng.prove(eng.same(eng.getattr(m, "_scope"), scope), "with the same variables")
        eng.prove(eng.content(scope) is s0, "which only its code changes")
    else:
        m = eng.force(m)
        ok = isinstance(m, Ref) and eng.class_of(m) is eng.cls(M + "Module")
        eng.prove(ok, "the result is a module")
        if not ok:
            return
        scope = eng.force(eng.getattr(m, "_scope"))
        ok = isinstance(scope, Ref) and eng.class_of(scope) is eng.cls(E)
        eng.prove(ok, "with a scope")
        if not ok:
            return
        eng.prove(not any(isinstance(x, Ref) and x.oid == scope.oid for x in (sh.scope, w.modref)), "of its own")
        rep = models.dict_rep(eng, scope)
        k = eng.fresh_str("k")
        eng.prove(models.dict_has(eng, rep, VStr(k)) == (k == S("env")), "that has no variables yet but env")
        env = models.dict_find(eng, rep, VStr("env"))
        d = [x for x in w.derived if isinstance(env, Ref) and x[0].oid == env.oid]
        eng.prove(len(d) == 1, "whose environment is a derived one")
        if len(d) != 1:
            return
        eng.prove(eng.same(d[0][1], sh.env), "of the shell's current environment")
        eng.prove(not d[0][2] and not d[0][3], "without other settings")
        eng.prove(eng.same(eng.getattr(d[0][0], "_scope"), scope), "and knows the module's variables")
    eng.prove(len(w.run) == 1, "its code is run once")
    for s, p in w.run:
        eng.prove(eng.same(s, scope), "in that scope")
        eng.prove(eng.eq(p, VStr(path)), "from the file found")


@P.target("attributes are the module's variables", spec=spec, functions=[M + "Module.__getattr__", M + "Module.__setattr__", M + "Module.__dir__"])
def _(eng):
    w = c15.World(eng, own=True, parent=False)
    m, scope = eng.alloc(eng.cls(M + "Module")), w.scope
    eng.set_raw(m, "_scope", scope)
    k = eng.fresh_str("name")
    special = z3.And(z3.PrefixOf(S("__"), k), z3.SuffixOf(S("__"), k))
    l0, e0 = eng.content(scope), eng.content(w.exref)
    what = eng.choose(5, "read, read a special name, assign, list, import *")
    if what == 0:
        eng.assume(z3.Not(special))
        got = eng.call(eng.getattr(m, "__getattr__"), [VStr(k)])
        eng.prove(eng.same(got, c15.resolve(w, k)), "read as the name is in the module's code")
        eng.prove(eng.content(scope) is l0 and eng.content(w.exref) is e0, "reading assigns nothing")
    elif what == 1:
        eng.assume(z3.And(special, k != S("__all__")))
        v = w.local(k)
        try:
            got = eng.call(eng.getattr(m, "__getattr__"), [VStr(k)])
        except PyExc as e:
            eng.prove(is_exc(eng, e, "AttributeError"), "a missing special name is an AttributeError")
            eng.prove(v is None, "only if the module does not define it")
            return
        eng.prove(v is not None and eng.same(got, v), "special names are those the module defines")
    elif what == 2:
        eng.assume(z3.And(k != S("_"), k != S("env"), k != S("_parent_scope"), k != S("exports")))
        v = VOpaque(eng.fresh_u("value"), types=["?"], label="value")
        exported = w.exports.has(k)
        eng.call(eng.getattr(m, "__setattr__"), [VStr(k), v])
        got = eng.call(eng.getattr(w.scope, "__getitem__"), [VStr(k)])
        eng.prove(eng.same(got, v), "an assigned attribute is the variable")
        eng.prove(eng.same(eng.getattr(m, "_scope"), scope), "the scope stays")
        if eng.decide(exported, "exported"):
            x = models.dict_find(eng, eng.content(w.exref), VStr(k))
            eng.prove(x is not None and eng.same(x, v), "an exported name is assigned in the module's exports")
        o = eng.fresh_str("other")
        eng.assume(o != k)
        for rep0, ref, n in ((l0, scope, "variable"), (e0, w.exref, "exported variable")):
            rep = eng.content(ref)
            h = models.dict_has(eng, rep, VStr(o))
            eng.prove(h == models.dict_has(eng, rep0, VStr(o)), "no other %s appears or goes" % n)
            if eng.decide(h, "other " + n):
                eng.prove(eng.same(models.dict_find(eng, rep, VStr(o)), models.dict_find(eng, rep0, VStr(o))), "no other %s changes" % n)
    elif what == 3:
        rope = models.iter_rope(eng, eng.call(eng.getattr(m, "__dir__"), []))
        flat = models.flatten(eng, models.dict_rep(eng, scope)).keyseq
        segs = rope.segs
        eng.prove(len(segs) == 1 and isinstance(segs[0], Chunk) and segs[0].seq is flat, "lists the variables of the module, nothing else")
        if len(segs) == 1 and isinstance(segs[0], Chunk):
            eng.prove(z3.And(segs[0].off == 0, segs[0].n == flat.n), "all of them")
    else:
        if w.local(S("__all__")) is not None:
            got = eng.call(eng.getattr(m, "__getattr__"), [VStr("__all__")])
            eng.prove(eng.same(got, w.local(S("__all__"))), "__all__ as defined")


@P.target("running a file: all its text, in the scope", spec=spec, functions=[E + ".execute_file"])
def _(eng):
    w = c15.World(eng, own=True, parent=False)
    sp = eng.spec
    path, text = eng.fresh_str("path"), eng.fresh_str("content")
    eng.assume(z3.Not(z3.PrefixOf(S("resource://"), path)))
    log = []
    f = VOpaque(eng.fresh_u("file"), types=["io"], label="file", methods={
        "read": lambda e, s: (log.append(("read",)), VStr(text))[1],
        "close": lambda e, s: (log.append(("close",)), NONE)[1],
        "__enter__": lambda e, s: s,
        "__exit__": lambda e, s, *a: (log.append(("close",)), NONE)[1]})

    def open_(e, p, *a, **kw):
        log.append(("open", p))
        if e.choose(2, "open fails") == 1:
            e.raise_py("OSError", "open")
        return f

    def console(e, *a, **kw):
        loc = kw.get("locals", a[0] if a else NONE)

        def runsource(e, s, src, filename=None, symbol=None):
            log.append(("run", loc, src, filename, symbol))
            return VBool(e.fresh_bool("incomplete"))
        return VOpaque(e.fresh_u("console"), types=["console"], methods={"runsource": runsource})
    sp.ext["builtins.open"] = sp.ext["open"] = sp.ext["io.open"] = open_
    sp.ext["code.InteractiveConsole"] = sp.ext["code.InteractiveInterpreter"] = console
    l0, e0 = eng.content(w.scope), eng.content(w.exref)
    try:
        eng.call(eng.getattr(w.scope, "execute_file"), [VStr(path)])
    except PyExc as e:
        eng.prove(is_exc(eng, e, "OSError") and [x[0] for x in log] == ["open"], "fails only if the file can not be opened")
        return
    eng.prove([x[0] for x in log if x[0] != "close"] == ["open", "read", "run"], "opened, read and run once")
    for x in log:
        if x[0] == "open":
            eng.prove(eng.eq(x[1], VStr(path)), "the file given")
        if x[0] == "run":
            eng.prove(eng.same(x[1], w.scope), "in this scope")
            eng.prove(eng.eq(x[2], VStr(text)), "the whole text")
            eng.prove(x[4] is not None and eng.eq(x[4], VStr("exec")), "as a file, not as one statement")
    eng.prove(("close",) in log, "and closed")
    eng.prove(eng.content(w.scope) is l0 and eng.content(w.exref) is e0, "only the code assigns variables")

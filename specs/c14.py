"""C14 derived environments."""
import os

from pyvc.lib import *
from pyvc import paths
from pyvc.paths import a_dir, resolve, EXISTS, ISDIR
from pyvc.spec import Property

P = Property("C14", trusted=[
    "os.path.join/isabs exact; expanduser and normpath uninterpreted functions with their laws for / and ~ (pyvc/paths.py)",
    "os.getcwd returns an absolute normalised directory; a parent environment's own directory still exists",
    "C04's contracts for Redirects(table) (used inlined, over its loop invariant)",
])
E = "pieshell.environ.Environment"
SS = z3.StringSort()


def spec():
    return paths.install(base_spec())


class World(object):
    """An arbitrary environment."""

    def __init__(self, eng, tag="parent", own=None):
        self.eng = eng
        eng.spec = paths.install(eng.spec)
        self.env = eng.alloc(eng.cls(E))
        self.cwd = a_dir(eng, tag + "_cwd")
        eng.assume(z3.And(ISDIR(self.cwd), EXISTS(self.cwd)))
        self.interactive = eng.fresh_bool(tag + "_interactive")
        ef = z3.Function(tag + "_exportv", SS, SS)
        self.exports = SymDict(eng, tag + "_exports", SS, lambda k: VStr(ef(k)), VStr)
        self.rep = DictRep(self.exports)
        self.exref = eng.new_dict(self.rep)
        own = eng.choose(2, tag + " exports") == 0 if own is None else own
        eng.set_raw(self.env, "_exports_value", self.exref if own else NONE)
        if not own:
            eng.spec.ext_attrs["os.environ"] = lambda e: self.exref
        self.table = Table(eng, tag + "_R")
        eng.spec.loops[self.table.tag] = lambda e, L, t=self.table: CopyLoop(e, t.dict)
        for a, v in (("_interactive", VBool(self.interactive)), ("_cwd", VStr(self.cwd)), ("_redirects", self.table.ref),
                     ("_scope", NONE), ("_bashfunctions", eng.new_dict(DictRep(None, []))), ("_dir_cache", NONE)):
            eng.set_raw(self.env, a, v)

    def state(self):
        return {a: self.eng.get_raw(self.env, a) for a in ("_interactive", "_cwd", "_redirects", "_exports_value", "_scope")}

    def unchanged(self, st, name):
        eng = self.eng
        now = self.state()
        for a in st:
            eng.prove(same_val(eng, now[a], st[a]), name + ": %s unchanged" % a)
        eng.prove(eng.content(self.exref) is self.rep, name + ": exports unchanged")
        eng.prove(table_content(eng, self.table.ref) is self.table.rep, name + ": default redirections unchanged")


def same_dict(eng, rep, sym, name):
    k = eng.fresh_str("k")
    h = models.dict_has(eng, rep, VStr(k))
    eng.prove(h == sym.has(k), name + ": exactly the same names")
    if eng.decide(h, "name present"):
        v = models.dict_find(eng, rep, VStr(k))
        eng.prove(v is not None and eng.eq(v, sym.value(k)), name + ": same values")


def same_redirects(eng, ref, t, name):
    q = eng.fresh_int("q")
    rep = table_content(eng, ref)
    h = has_at(eng, rep, q)
    eng.prove(h == t.dict.has(q), name + ": exactly the same descriptors")
    if eng.decide(h, "descriptor present"):
        v = entry_at(eng, rep, q)
        eng.prove(fields_equal(eng, v, FRef(t.fam, q)), name + ": same redirections")
        eng.prove(is_fresh(eng, v, t.fam), name + ": redirections are copies")


@P.target("deriving: everything not given is inherited, nothing shared, parent untouched",
          functions=[E + ".__call__", E + ".__init__", E + "._cd", E + "._expand_path", E + "._exports"])
def _(eng):
    aspect = eng.choose(4, "aspect")
    # the options an aspect does not depend on are all given or all omitted
    others = eng.choose(2, "other options given")
    pick = lambda n, *aspects: eng.choose(n, "option") if aspect in aspects else others
    w = World(eng, own=None if aspect == 1 else True)
    kw = {}
    st = w.state()
    cwd = given_ex = inter = given_red = None
    if pick(2, 0):
        cwd = eng.fresh_str("cwd")
        eng.inputs.append(("cwd", cwd))
        kw["cwd"] = VStr(cwd)
    j = pick(3, 1)
    if j:
        gf = z3.Function("givenv", SS, SS)
        given_ex = DictRep(SymDict(eng, "given", SS, lambda k: VStr(gf(k)), VStr)) if j == 1 else DictRep(None, [])
        gref = kw["exports"] = eng.new_dict(given_ex)
    if pick(2, 0):
        inter = eng.fresh_bool("interactive")
        kw["interactive"] = VBool(inter)
    j = pick(3, 2)
    if j:
        if j == 1:
            gt = Table(eng, "givenR")
            eng.spec.loops[gt.tag] = lambda e, L: CopyLoop(e, gt.dict)
            given_red = gt.ref
        else:
            given_red = eng.new_obj(eng.cls("pieshell.redir.Redirects"), redirects=eng.new_dict(DictRep(None, [])))
        kw["redirects"] = given_red
    p0 = paths.cwd(eng)
    want_i = w.interactive if inter is None else inter
    try:
        res = eng.call(eng.getattr(w.env, "__call__"), [], kw)
    except PyExc as e:
        eng.prove(is_exc(eng, e, "OSError"), "only a missing directory fails")
        if cwd is None:
            eng.prove(want_i, "deriving with the own directory fails only if chdir fails")
        else:
            t = resolve(eng, w.cwd, cwd)
            eng.prove(z3.Or(z3.Not(ISDIR(t)), want_i), "deriving fails only for a missing directory or a failing chdir")
        w.unchanged(st, "failed")
        return
    eng.prove(isinstance(eng.force(res), Ref) and eng.force(res).oid != w.env.oid, "a new environment")
    if aspect == 0:
        want = w.cwd if cwd is None else resolve(eng, w.cwd, cwd)
        eng.prove(eng.eq(eng.getattr(res, "_cwd"), VStr(want)), "directory: the parent's, or the given one taken against it")
        if cwd is not None:
            eng.prove(EXISTS(want), "the directory exists")
        eng.prove(eng.eq(eng.getattr(res, "_interactive"), VBool(want_i)), "interactivity")
        eng.prove(eng.ghost["proccwd"] == z3.If(want_i, want, p0), "exactly an interactive environment moves the interpreter to its directory")
        eng.prove(z3.Or(want_i, not eng.extstate.get("chdir")), "a non-interactive environment never changes the interpreter's directory")
    elif aspect == 1:
        ex = eng.force(eng.getattr(res, "_exports"))
        if given_ex is None:
            eng.prove(isinstance(ex, Ref) and ex.oid != w.exref.oid, "exports are a copy")
            same_dict(eng, models.dict_rep(eng, ex), w.exports, "exports")
        elif ex.oid == gref.oid:
            eng.prove(eng.content(gref) is given_ex, "given exports unchanged")
        elif given_ex.base is not None:
            same_dict(eng, models.dict_rep(eng, ex), given_ex.base, "given exports")
        else:
            k = eng.fresh_str("k")
            eng.prove(z3.Not(models.dict_has(eng, models.dict_rep(eng, ex), VStr(k))), "given empty exports")
    elif aspect == 2:
        red = eng.force(eng.getattr(res, "_redirects"))
        if given_red is None:
            eng.prove(isinstance(red, Ref) and red.oid != w.table.ref.oid and eng.get_raw(red, "redirects").oid != w.table.dref.oid, "default redirections are a copy")
            same_redirects(eng, red, w.table, "redirections")
        else:
            eng.prove(eng.same(red, given_red) if j == 2 else isinstance(red, Ref), "given redirections, empty ones too")
            if j == 1 and red.oid != given_red.oid:
                same_redirects(eng, red, gt, "given redirections")
    else:
        for a in ("_bashfunctions", "running_pipelines"):
            v = eng.force(eng.getattr(res, a))
            eng.prove(isinstance(v, Ref) and z3.Not(eng.same(v, eng.get_raw(w.env, "_bashfunctions"))), "own " + a)
        w.unchanged(st, "derived")


@P.target("env[path] is env(path)", functions=[E + ".__getitem__"])
def _(eng):
    w = World(eng)
    p = VStr(eng.fresh_str("path"))
    made = []

    def call(eng, self, cwd=NONE, exports=NONE, interactive=NONE, redirects=NONE):
        made.append((self, cwd, exports, interactive, redirects))
        return VOpaque(eng.fresh_u("derived"), label="derived")
    eng.spec.contracts[E + ".__call__"] = call
    res = eng.call(eng.getattr(w.env, "__getitem__"), [p])
    eng.prove(len(made) == 1 and eng.same(made[0][0], w.env) and isinstance(res, VOpaque), "derived once, from this environment")
    eng.prove(z3.And(eng.eq(made[0][1], p), *[z3.BoolVal(x is NONE) for x in made[0][2:]]), "with the directory, nothing else given")


@P.target("changing directory: missing raises and changes nothing", functions=[E + "._cd", E + "._expand_path"])
def _(eng):
    w = World(eng)
    st = w.state()
    p = eng.fresh_str("path")
    eng.inputs.append(("path", p))
    p0 = paths.cwd(eng)
    want = resolve(eng, w.cwd, p)
    try:
        eng.call(eng.getattr(w.env, "_cd"), [VStr(p)])
    except PyExc as e:
        eng.prove(is_exc(eng, e, "OSError"), "raises an IOError")
        eng.prove(z3.Or(z3.Not(ISDIR(want)), w.interactive), "raises only if missing, or if chdir fails")
        w.unchanged(st, "failed")
        eng.prove(eng.ghost["proccwd"] == p0, "failed: the interpreter's directory is unchanged")
        return
    eng.prove(EXISTS(want), "a missing directory raises")
    eng.prove(eng.eq(eng.getattr(w.env, "_cwd"), VStr(want)), "the directory is the given one, taken against the environment's")
    eng.prove(eng.ghost["proccwd"] == z3.If(w.interactive, want, p0), "only an interactive environment changes the interpreter's")
    st["_cwd"] = VStr(want)
    w.unchanged(st, "changed")


@P.target("a new environment: defaults", functions=[E + ".__init__"])
def _(eng):
    eng.spec = paths.install(eng.spec)
    kw = {}
    p0 = paths.cwd(eng)
    cwd = None
    if eng.choose(2, "cwd given") == 1:
        cwd = eng.fresh_str("cwd")
        kw["cwd"] = VStr(cwd)
    environ = eng.new_dict(DictRep(None, []))
    eng.spec.ext_attrs["os.environ"] = lambda e: environ
    try:
        res = eng.call(VClass(eng.cls(E)), [], kw)
    except PyExc as e:
        eng.prove(is_exc(eng, e, "OSError") if cwd is not None else False, "fails only for a missing directory")
        return
    want = p0 if cwd is None else resolve(eng, p0, cwd)
    eng.prove(eng.eq(eng.getattr(res, "_cwd"), VStr(want)), "directory: the interpreter's, or the given one")
    eng.prove(not eng.extstate.get("chdir"), "not interactive: the interpreter stays")
    eng.prove(eng.same(eng.getattr(res, "_exports"), environ), "exports: the interpreter's environment variables")
    rep = table_content(eng, eng.getattr(res, "_redirects"))
    q = eng.fresh_int("q")
    eng.prove(has_at(eng, rep, q) == z3.And(q >= 0, q <= 2), "default redirections of 0, 1 and 2")
    for k in range(3):
        v = entry_at(eng, rep, I(k))
        if v is None:
            return
        src = eng.force(eng.getattr(v, "source"))
        if k < 2:
            eng.prove(z3.And(eng.eq(src, VInt(k)), eng.truthy(eng.getattr(v, "borrowed"))), "stdin and stdout are lent to children")
        else:
            eng.prove(isinstance(src, VClass) and src.info.name == "STRING", "stderr is captured")


CD = "pieshell.pipeline.builtins.CdBuiltin"


@P.target("cd: home by default, PARENT and ROOT, components joined in order", functions=[CD + "._path", CD + "._run"])
def _(eng):
    w = World(eng)
    j = eng.choose(4, "arguments")
    args = [VStr(eng.fresh_str("arg%d" % i)) for i in range(min(j, 2))]
    rest = Rope([Elems(args)] if args else [])
    if j == 3:
        f = z3.Function("argf", z3.IntSort(), SS)
        seq = SymSeq(eng, "cdargs", at=lambda i: VStr(f(i)))
        eng.assume(seq.n >= 1)
        rest = Rope([Chunk(seq)])
    cd = eng.alloc(eng.cls(CD))
    eng.set_raw(cd, "_env", w.env)
    eng.set_raw(cd, "_arg", eng.new_list(Rope([Elems([VStr("cd")])]) + rest))
    calls = []
    eng.spec.contracts[E + "._cd"] = lambda e, self, p: (calls.append((self, p)), self)[1]
    eng.spec.contracts["pieshell.pipeline.base.Pipeline._run"] = lambda e, self, *a, **k: NONE
    res = eng.call(eng.getattr(cd, "_run"), [w.table.ref, NONE])
    r = models.iter_rope(eng, res)
    eng.prove(r.is_concrete and not r.concrete(), "no process")
    eng.prove(len(calls) == 1 and eng.same(calls[0][0], w.env), "changes its own environment's directory, once")
    got = eng.force(calls[0][1])

    def repl(t):
        return z3.If(t == S("PARENT"), S(".."), z3.If(t == S("ROOT"), S("/"), t))
    if j == 0:
        eng.prove(eng.eq(got, VStr("~")), "no argument: the home directory")
    elif j < 3:
        t = repl(args[0].t)
        for a in args[1:]:
            t = paths.join2(eng, t, repl(a.t))
        eng.prove(got.t == t, "components joined in order, PARENT is .., ROOT is /")
    else:
        js = eng.extstate.get("joins", [])
        eng.prove(len(js) == 1 and js[0][1].eq(got.t), "all components joined")
        rope = js[0][0]
        eng.prove(rope.length() == seq.n, "as many components as arguments")
        i = eng.fresh_int("i")
        eng.assume(z3.And(i >= 0, i < seq.n))
        v = models.rope_getitem(eng, rope, VInt(i), VTuple)
        eng.prove(eng.eq(v, VStr(repl(f(i)))), "each component in its place, PARENT is .., ROOT is /")


@P.target("env | x and x | env: the default redirection of one descriptor of this environment", functions=[E + ".__or__", E + ".__ror__", "pieshell.redir.Redirects._coerce"])
def _(eng):
    op = ["__or__", "__ror__"][eng.choose(2, "operator")]
    fd = 1 if op == "__or__" else 0
    w = World(eng)
    st = w.state()
    kind = ["path", "bytes", "nothing", "redirect", "redirects", "other"][eng.choose(6, "operand")]
    q0 = I(fd)
    want = None
    if kind in ("path", "bytes"):
        x = (VStr if kind == "path" else VBytes)(eng.fresh_str("file"))
        want = x
    elif kind == "nothing":
        x, want = NONE, VStr(S("/dev/null"))
    elif kind == "other":
        x = VOpaque(eng.fresh_u("thing"), types=["builtins.int"], label="thing")
    else:
        n = eng.fresh_int("given_fd")
        src = VStr(eng.fresh_str("file"))
        r = eng.new_obj(eng.cls("pieshell.redir.Redirect"), fd=VInt(n), source=src, flag=VInt(eng.fresh_int("flag")), mode=VInt(eng.fresh_int("mode")),
                        pipe=NONE, borrowed=VBool(eng.fresh_bool("borrowed")))
        given = dict(eng.heap[r.oid].attrs)
        q0, want = n, src
        x = r if kind == "redirect" else eng.new_obj(eng.cls("pieshell.redir.Redirects"), redirects=eng.new_dict(DictRep(None, [(VInt(n), r)])))
    try:
        eng.call(eng.getattr(w.env, op), [x])
    except PyExc as e:
        eng.prove(kind == "other", "only for what is no redirection")
        w.unchanged(st, "failed")
        return
    eng.prove(kind != "other", "what is no redirection is refused")
    now = w.state()
    for a in st:
        eng.prove(same_val(eng, now[a], st[a]), "%s unchanged" % a)
    eng.prove(eng.content(w.exref) is w.rep, "exports unchanged")
    rep = table_content(eng, w.table.ref)
    q = eng.fresh_int("q")
    h = has_at(eng, rep, q)
    if eng.decide(q == q0, "the descriptor"):
        eng.prove(h, "redirected")
        v = entry_at(eng, rep, q)
        eng.prove(eng.eq(eng.getattr(v, "fd"), VInt(q0)), "of that number")
        eng.prove(eng.eq(eng.getattr(v, "source"), want), "to what was given")
        if kind in ("redirect", "redirects"):
            for a in ("flag", "mode", "borrowed"):
                eng.prove(eng.eq(eng.getattr(v, a), given[a]), "as it was given")
        else:
            flag = eng.force(eng.getattr(v, "flag"))
            eng.prove(isinstance(flag, VInt), "flags")
            eng.prove(flag.t == (os.O_RDONLY if fd == 0 else os.O_WRONLY | os.O_CREAT), "for reading or for writing, by the operator")
    else:
        eng.prove(h == w.table.dict.has(q), "the others are there as before")
        if eng.decide(h, "another"):
            eng.prove(fields_equal(eng, entry_at(eng, rep, q), FRef(w.table.fam, q)), "the others as before")

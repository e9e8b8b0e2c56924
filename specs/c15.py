"""C15 shell variables."""
from pyvc.lib import *
from pyvc.spec import Property

P = Property("C15", trusted=[
    "the mapping protocol of dict; os.environ behaves as a dictionary for its keys",
    "getattr(env, name) is the command of that name (C03)",
])
E = "pieshell.environ.EnvScope"
SS = z3.StringSort()


class World(object):
    """An arbitrary scope: locals, an environment with arbitrary exports, and
    possibly an enclosing scope."""

    def __init__(self, eng, own=True, parent=None):
        self.eng = eng
        C = eng.cls(E)
        lf, ef, pf = [z3.Function(n, SS, U) for n in ("localv", "exportv", "parentv")]
        self.isb = z3.Function("isbuiltin", SS, z3.BoolSort())
        self.bv, self.cv = z3.Function("builtinv", SS, U), z3.Function("commandv", SS, U)
        self.env = eng.alloc(eng.cls("pieshell.environ.Environment"))
        self.exports = SymDict(eng, "exports", SS, lambda k: VOpaque(ef(k), types=["?"], label="export"), VStr)
        self.empty = False
        if own:
            self.exref = eng.new_dict(DictRep(self.exports))
            eng.set_raw(self.env, "_exports_value", self.exref)
        else:
            self.exref = eng.new_dict(DictRep(self.exports))
            eng.set_raw(self.env, "_exports_value", NONE)
            eng.spec.ext_attrs["os.environ"] = lambda e: self.exref
        eng.set_raw(self.env, "_scope", NONE)
        for a, v in (("_interactive", VBool(eng.fresh_bool("interactive"))), ("_cwd", VStr(eng.fresh_str("cwd")))):
            eng.set_raw(self.env, a, v)
        if parent is None:
            parent = eng.choose(2, "enclosing scope") == 1
        self.parent = self.pref = None
        if parent:
            self.parent = SymDict(eng, "parent", SS, lambda k: VOpaque(pf(k), types=["?"], label="parent"), VStr)
            self.pref = eng.new_dict(DictRep(self.parent))
        self.locals = SymDict(eng, "locals", SS, lambda k: VOpaque(lf(k), types=["?"], label="local"), VStr)
        over = [(VStr("env"), self.env), (VStr("_parent_scope"), self.pref if parent else DictRep.DEL)]
        self.scope = eng.alloc(C, DictRep(self.locals, over))
        sp = eng.spec

        def isenv(e, o):
            return isinstance(o, Ref) and o.oid == self.env.oid

        def getattr_(e, o, n, *d):
            o, n = e.force(o), e.force(n)
            if isinstance(n, VStr) and models.sconst(n) is None:
                if isenv(e, o):
                    return VOpaque(self.cv(n.t), label="command")
                if e.decide(self.isb(n.t), "a python builtin"):
                    return VOpaque(self.bv(n.t), label="builtin")
                if d:
                    return d[0]
                e.raise_py("AttributeError")
            return models.b_getattr(e, o, n, *d)

        def hasattr_(e, o, n):
            o, n = e.force(o), e.force(n)
            if isinstance(n, VStr) and models.sconst(n) is None:
                if isenv(e, o):
                    return VBool(True)
                return VBool(self.isb(n.t))
            return models.b_hasattr(e, o, n)
        sp.ext["builtins.getattr"] = getattr_
        sp.ext["builtins.hasattr"] = hasattr_

    def local(self, k):
        return models.dict_find(self.eng, models.dict_rep(self.eng, self.scope), VStr(k))


def resolve(w, k):
    """What reading name k must give, by the fixed order."""
    eng = w.eng
    v = w.local(k)
    if v is not None:
        return v
    if eng.decide(k == S("_"), "name _"):
        return VOpaque(w.cv(k), label="command")
    if eng.decide(k == S("exports"), "name exports"):
        return w.exref
    v = models.dict_find(eng, eng.content(w.exref), VStr(k))
    if v is not None:
        return v
    if w.parent is not None:
        v = models.dict_find(eng, eng.content(w.pref), VStr(k))
        if v is not None:
            return v
    if eng.decide(w.isb(k), "a python builtin"):
        return VOpaque(w.bv(k), label="builtin")
    return VOpaque(w.cv(k), label="command")


@P.target("reading: local, exports, enclosing scope, builtins, commands", functions=[E + ".__getitem__", "pieshell.environ.Environment._exports"])
def _(eng):
    w = World(eng, own=eng.choose(2, "exports") == 0)
    k = eng.fresh_str("name")
    n0 = eng.content(w.scope)
    got = eng.call(eng.getattr(w.scope, "__getitem__"), [VStr(k)])
    want = resolve(w, k)
    eng.prove(eng.same(got, want), "resolved in the fixed order")
    eng.prove(eng.content(w.scope) is n0, "reading assigns nothing")


@P.target("assigning: to the exports if exported, else local; read back", functions=[E + ".__setitem__", E + ".__getitem__"])
def _(eng):
    w = World(eng, own=eng.choose(2, "exports") == 0)
    k = eng.fresh_str("name")
    eng.assume(z3.And(k != S("_"), k != S("env"), k != S("_parent_scope"), k != S("exports")))
    v = VOpaque(eng.fresh_u("value"), types=["?"], label="value")
    other = eng.fresh_str("other")
    exported = w.exports.has(k)
    l0 = eng.content(w.scope)
    eng.call(eng.getattr(w.scope, "__setitem__"), [VStr(k), v])
    l1, e1 = eng.content(w.scope), eng.content(w.exref)
    got = eng.call(eng.getattr(w.scope, "__getitem__"), [VStr(k)])
    eng.prove(eng.same(got, v), "the assigned value is read back")
    if eng.decide(exported, "exported"):
        x = models.dict_find(eng, e1, VStr(k))
        eng.prove(x is not None and eng.same(x, v), "an exported name is assigned in the exports")
        eng.prove(z3.Not(models.dict_has(eng, l1, VStr(k))), "and not hidden by a local")
    else:
        x = models.dict_find(eng, l1, VStr(k))
        eng.prove(x is not None and eng.same(x, v), "any other name is local")
        eng.prove(z3.Not(models.dict_has(eng, e1, VStr(k))), "and not exported")
    eng.assume(other != k)
    for name, a, b in (("local", l1, l0), ("exported", e1, DictRep(w.exports))):
        h = models.dict_has(eng, a, VStr(other))
        eng.prove(h == models.dict_has(eng, b, VStr(other)), "no other %s name appears or disappears" % name)
        if eng.decide(h, "other present"):
            eng.prove(eng.same(models.dict_find(eng, a, VStr(other)), models.dict_find(eng, b, VStr(other))), "no other %s value changes" % name)


@P.target("assigning env switches the environment", functions=[E + ".__setitem__"])
def _(eng):
    w = World(eng)
    new = eng.alloc(eng.cls("pieshell.environ.Environment"))
    eng.set_raw(new, "_scope", eng.new_dict(DictRep(None, [])) if eng.choose(2, "it already had a scope") else NONE)
    eng.set_raw(new, "_exports_value", eng.new_dict(DictRep(SymDict(eng, "newexports", SS, lambda k: VOpaque(z3.Function("nx", SS, U)(k)), VStr))))
    e0 = eng.content(w.exref)
    eng.call(eng.getattr(w.scope, "__setitem__"), [VStr("env"), new])
    eng.prove(eng.same(eng.call(eng.getattr(w.scope, "__getitem__"), [VStr("env")]), new), "env is the new environment, even if exported")
    eng.prove(eng.same(eng.getattr(new, "_scope"), w.scope), "its variables are those of this scope")
    eng.prove(eng.content(w.exref) is e0, "the exports of the old environment stay")


@P.target("ptpython's _ is kept as last_statement", functions=[E + ".__setitem__"])
def _(eng):
    w = World(eng)
    v = VOpaque(eng.fresh_u("value"))
    eng.assume(z3.Not(w.exports.has(S("last_statement"))))
    eng.call(eng.getattr(w.scope, "__setitem__"), [VStr("_"), v])
    eng.prove(eng.same(eng.call(eng.getattr(w.scope, "__getitem__"), [VStr("last_statement")]), v), "last_statement")


@P.target("the scope lists every local and exported name", functions=[E + ".keys", E + ".__iter__"])
def _(eng):
    w = World(eng)
    cmds = SymSeq(eng, "commands", at=lambda i: VStr(z3.Function("cmdname", z3.IntSort(), SS)(i)))
    eng.spec.ext["builtins.dir"] = lambda e, o: e.new_list(Rope([Chunk(cmds)]))
    for how in ("keys", "__iter__"):
        rope = models.iter_rope(eng, eng.call(eng.getattr(w.scope, how), []))
        ks = [s.seq for s in rope.segs if isinstance(s, Chunk)]
        whole = [s.seq for s in rope.segs if isinstance(s, Chunk) and z3.is_true(z3.simplify(z3.And(s.off == 0, s.n == s.seq.n)))]
        eng.prove(any(s is w.exports.keyseq for s in whole), how + ": all exported names")
        flat = models.flatten(eng, models.dict_rep(eng, w.scope)).keyseq
        eng.prove(any(s is flat for s in whole), how + ": all local names")

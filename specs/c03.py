"""C03 construction of pipelines."""
from pyvc.lib import *
from pyvc.spec import Property

P = Property("C03", trusted=[
    "type.__new__ makes a new object of the given class; attributes of pipeline objects behave like those of ordinary objects",
    "attribute and argument names that are not attributes of the pipeline classes themselves",
])
BC = "pieshell.pipeline.command.BaseCommand"
CMD = "pieshell.pipeline.command.Command"
B = "pieshell.pipeline.base.Pipeline"
ENV = "pieshell.environ.Environment"
REG = "pieshell.pipeline.builtin.BuiltinRegistry"
SS = z3.StringSort()
ISB = z3.Function("is_builtin", SS, z3.BoolSort())


def frame(eng, snap, name):
    """Every object that existed at snap is as it was."""
    for oid, o in snap["heap"].items():
        n = eng.heap[oid]
        same = n.content is o.content and set(n.attrs) == set(o.attrs)
        eng.prove(same, name + ": nothing existing changes")
        if same:
            for a in o.attrs:
                eng.prove(same_val(eng, n.attrs[a], o.attrs[a]), name + ": nothing existing changes")


class World(object):
    """An environment, an arbitrary registry of builtins and the means to
    notice that something is started."""

    def __init__(self, eng):
        self.eng = eng
        sp = eng.spec
        self.builtin = eng.cls("pieshell.pipeline.builtins.CdBuiltin")

        def get(e, *a):
            n = e.force(a[-1])
            if not isinstance(n, VStr):
                return NONE
            return VClass(self.builtin) if e.decide(ISB(n.t), "registered builtin") else NONE
        sp.contracts[REG + ".get_by_name"] = get
        self.started = []
        for c in (B, CMD, BC, "pieshell.pipeline.function.Function", "pieshell.pipeline.pipe.Pipe", "pieshell.pipeline.group.Group",
                  "pieshell.pipeline.redirect.CmdRedirect", "pieshell.pipeline.builtins.CdBuiltin"):
            sp.contracts[c + "._run"] = lambda e, *a, **k: self.start()
        sp.contracts[B + ".run"] = lambda e, *a, **k: self.start()
        sp.ext["os.fork"] = lambda e: self.start()
        self.env = eng.new_obj(eng.cls(ENV), _cwd=VStr(eng.fresh_str("cwd")), _interactive=VBool(eng.fresh_bool("interactive")), _scope=NONE)

    def start(self):
        self.started.append(1)
        return NONE

    def args(self, n=None, tag="args"):
        """An arbitrary argument list (of n elements, or of any length)."""
        eng = self.eng
        f = z3.Function(eng.fresh_name(tag), z3.IntSort(), U)
        if n is not None:
            return Rope([Elems([VOpaque(f(I(i)), types=["?"], attrs=["?"], label="arg") for i in range(n)])])
        return Rope([Chunk(SymSeq(eng, eng.fresh_name(tag), at=lambda i: VOpaque(f(i), types=["?"], attrs=["?"], label="arg")))])

    def kw(self, n):
        eng = self.eng
        if n == 0:
            return {}
        if n == 1:
            return {"opt": VOpaque(eng.fresh_u("optval"), types=["?"], attrs=["?"], label="value"), "other_opt": VBool(eng.fresh_bool("flag"))}
        f = z3.Function("kwval", SS, U)
        d = SymDict(eng, "kwargs", SS, lambda k: VOpaque(f(k), types=["?"], attrs=["?"], label="value"), VStr)
        eng.assume(d.keyseq.n > 0)
        return {"**": DictRep(d)}

    def command(self, first=None, rest=None, cls=None):
        """A command whose first word is `first`."""
        eng = self.eng
        first = eng.fresh_str("word") if first is None else first
        if cls is None:
            cls = self.builtin if eng.decide(ISB(first), "registered builtin") else eng.cls(CMD)
        rope = Rope([Elems([VStr(first)])]) + (self.args() if rest is None else rest)
        if rest is None and eng.choose(2, "ends in an option set") == 1:
            rope = rope.append(eng.new_dict(DictRep(None, [(VStr(S("given")), VOpaque(eng.fresh_u("given"), types=["?"]))])))
        arg = eng.new_list(rope)
        c = eng.new_obj(cls, _env=self.env, _arg=arg, _started=VBool(False), _running_process=NONE, __module__=NONE)
        return c, arg, rope


def same_rope(eng, a, b, name):
    """Ropes a and b hold the same elements in the same order."""
    eng.prove(a.length() == b.length(), name + ": as many")
    i = eng.fresh_int("ix")
    eng.assume(z3.And(i >= 0, i < b.length()))
    x, y = models.rope_getitem(eng, a, VInt(i), VTuple), models.rope_getitem(eng, b, VInt(i), VTuple)
    eng.prove(same_val(eng, x, y), name + ": each in its place")


def is_command(eng, w, res, cls, rope, name, given=(), kw=None):
    res = eng.force(res)
    if isinstance(cls, str):
        cls = eng.cls(cls)
    eng.prove(isinstance(res, Ref) and res.cls is cls, name + ": registered builtin or external program by the first word")
    eng.prove(eng.same(eng.getattr(res, "_env"), w.env), name + ": same environment")
    arg = eng.force(eng.getattr(res, "_arg"))
    eng.prove(isinstance(arg, Ref) and not any(arg.oid == g.oid for g in given), name + ": its own argument list")
    if not isinstance(arg, Ref):
        return
    got = eng.content(arg)
    if kw:
        n = got.length()
        eng.prove(n == rope.length() + 1, name + ": one option set")
        last = eng.force(models.rope_getitem(eng, got, VInt(n - 1), VTuple))
        eng.prove(isinstance(last, Ref) and isinstance(eng.content(last), DictRep), name + ": the keyword arguments last")
        if isinstance(last, Ref):
            rep = eng.content(last)
            if "**" in kw:
                k = eng.fresh_str("k")
                d = kw["**"].base
                h = models.dict_has(eng, rep, VStr(k))
                eng.prove(h == d.has(k), name + ": exactly the keyword arguments")
                if eng.decide(h, "keyword"):
                    eng.prove(same_val(eng, models.dict_find(eng, rep, VStr(k)), d.value(k)), name + ": their values")
            else:
                eng.prove([models.sconst(k) for k, v in rep.over] == list(kw), name + ": keyword arguments in order")
                for (k, v), x in zip(rep.over, kw.values()):
                    eng.prove(same_val(eng, v, x), name + ": their values")
        i = eng.fresh_int("ix")
        eng.assume(z3.And(i >= 0, i < rope.length()))
        eng.prove(same_val(eng, models.rope_getitem(eng, got, VInt(i), VTuple), models.rope_getitem(eng, rope, VInt(i), VTuple)), name + ": arguments in order")
    else:
        same_rope(eng, got, rope, name + ": arguments")
    eng.prove(z3.Not(eng.truthy(eng.getattr(res, "_started"))), name + ": not started")
    eng.prove(not w.started, name + ": nothing is started")


@P.target("env.NAME: the command NAME, builtin if registered", functions=[ENV + ".__getattr__", BC + ".__new__", BC + ".__init__"])
def _(eng):
    w = World(eng)
    n = eng.fresh_str("name")
    eng.assume(z3.And(n != S("_"), n != S("__getstate__"), n != S("__setstate__")))
    snap = eng.snapshot()
    res = eng.call(eng.getattr(w.env, "__getattr__"), [VStr(n)])
    cls = w.builtin if eng.decide(ISB(n), "registered builtin") else eng.cls(CMD)
    is_command(eng, w, res, cls, Rope([Elems([VStr(n)])]), "env.NAME")
    frame(eng, snap, "env.NAME")


@P.target("env._(...): the command of the first word", functions=[ENV + ".__getattr__", BC + ".__call__", BC + ".__new__", BC + ".__init__"])
def _(eng):
    w = World(eng)
    snap = eng.snapshot()
    e = eng.call(eng.getattr(w.env, "__getattr__"), [VStr("_")])
    eng.prove(eng.force(e).cls is eng.cls(BC) and eng.eq(eng.content(eng.getattr(e, "_arg")).length(), I(0)) if False else eng.force(e).cls is eng.cls(BC), "env._ has no words yet")
    n = eng.fresh_str("name")
    rest = w.args(2)
    kw = w.kw(eng.choose(2, "keywords"))
    e0 = eng.snapshot()
    res = eng.call(e, [VStr(n)] + rest.concrete(), kw)
    cls = w.builtin if eng.decide(ISB(n), "registered builtin") else eng.cls(CMD)
    is_command(eng, w, res, cls, Rope([Elems([VStr(n)])]) + rest, "env._()", [eng.getattr(e, "_arg")], kw)
    frame(eng, e0, "env._()")
    frame(eng, snap, "env._()")


@P.target("command(...): appends exactly the arguments, keywords last", functions=[BC + ".__call__", BC + ".__new__", BC + ".__init__"])
def _(eng):
    w = World(eng)
    c, arg, rope = w.command()
    j = eng.choose(4, "positional arguments")
    extra = w.args(j, "new") if j < 3 else w.args(tag="new")
    kw = w.kw(eng.choose(3, "keywords"))
    snap = eng.snapshot()
    from pyvc.engine import StarArg
    res = eng.call(c, extra.concrete() if j < 3 else [StarArg(extra)], kw)
    is_command(eng, w, res, c.cls, rope + extra, "command()", [arg], kw)
    frame(eng, snap, "command()")


@P.target("command.NAME: appends the name", functions=[BC + ".__getattr__", BC + ".__new__", BC + ".__init__"])
def _(eng):
    w = World(eng)
    c, arg, rope = w.command()
    n = eng.fresh_str("name")
    snap = eng.snapshot()
    res = eng.call(eng.getattr(c, "__getattr__"), [VStr(n)])
    is_command(eng, w, res, c.cls, rope.append(VStr(n)), "command.NAME", [arg])
    frame(eng, snap, "command.NAME")


@P.target("command - option: appends -option", functions=[BC + ".__sub__", BC + ".__neg__"])
def _(eng):
    w = World(eng)
    c, arg, rope = w.command()
    o = eng.fresh_str("option")
    opt, oarg, orope = w.command(o, Rope([]))
    snap = eng.snapshot()
    res = models.binop(eng, "Sub", c, opt)
    is_command(eng, w, res, c.cls, rope.append(VStr(z3.Concat(S("-"), o))), "a - b", [arg, oarg])
    frame(eng, snap, "a - b")


@P.target("env.a.b(c), env.a(b, c) and env._(a, b, c) are the same command", functions=[ENV + ".__getattr__", BC + ".__getattr__", BC + ".__call__"])
def _(eng):
    w = World(eng)
    a, b = eng.fresh_str("a"), eng.fresh_str("b")
    eng.assume(z3.And(a != S("_"), a != S("__getstate__"), a != S("__setstate__")))
    x = w.args(1, "x").concrete()
    kw = w.kw(eng.choose(2, "keywords"))
    G = lambda o, n: eng.call(eng.getattr(o, "__getattr__"), [VStr(n)])
    rs = [eng.call(G(G(w.env, a), b), x, kw), eng.call(G(w.env, a), [VStr(b)] + x, kw),
          eng.call(eng.call(eng.getattr(w.env, "__getattr__"), [VStr("_")]), [VStr(a), VStr(b)] + x, kw)]
    cls = w.builtin if eng.decide(ISB(a), "registered builtin") else eng.cls(CMD)
    oids = [eng.force(eng.getattr(r, "_arg")).oid for r in rs]
    eng.prove(len(set(oids)) == 3, "three argument lists")
    for r in rs:
        is_command(eng, w, r, cls, Rope([Elems([VStr(a), VStr(b)] + x)]), "spelling", kw=kw)


@P.target("BaseCommand(env, list) copies the list", functions=[BC + ".__init__", BC + ".__new__"])
def _(eng):
    w = World(eng)
    f = eng.fresh_str("word")
    rope = Rope([Elems([VStr(f)])]) + w.args()
    given = eng.new_list(rope)
    snap = eng.snapshot()
    res = eng.call(VClass(eng.cls(BC)), [w.env, given])
    cls = w.builtin if eng.decide(ISB(f), "registered builtin") else eng.cls(CMD)
    is_command(eng, w, res, cls, rope, "BaseCommand", [given])
    frame(eng, snap, "BaseCommand")


@P.target("pipe, group and redirect operators: new value, operands untouched, nothing started",
          functions=[B + ".__or__", B + ".__ror__", B + ".__gt__", B + ".__lt__", B + ".__add__", B + "._coerce"])
def _(eng):
    w = World(eng)
    c, arg, rope = w.command(cls=eng.cls(CMD))
    k = eng.choose(8, "other operand")
    if k == 0:
        o = w.command(cls=eng.cls(CMD))[0]
    elif k == 1:
        o = NONE
    elif k == 2:
        o = VStr(eng.fresh_str("path"))
    elif k == 3:
        o = eng.new_obj(eng.cls("pieshell.redir.Redirect"), fd=VInt(eng.fresh_int("fd")), source=VStr(eng.fresh_str("src")),
                        flag=VInt(eng.fresh_int("flag")), mode=VInt(eng.fresh_int("mode")), pipe=NONE, borrowed=VBool(eng.fresh_bool("b")))
    elif k == 4:
        o = VOpaque(eng.fresh_u("function"), types=["types.FunctionType"], label="function")
    elif k == 5:
        o = VOpaque(eng.fresh_u("iterator"), attrs=["__iter__", "__next__"], label="iterator")
    elif k == 6:
        t = Table(eng, "R")
        eng.spec.loops[t.tag] = lambda e, L: CopyLoop(e, t.dict)
        o = t.ref
    else:
        o = eng.new_obj(eng.cls("pieshell.pipeline.function.Function"), _env=w.env, function=VOpaque(eng.fresh_u("f"), types=["types.FunctionType"]),
                        _arg=VTuple([]), _kw=eng.new_dict(DictRep(None, [])), _started=VBool(False))
    op = eng.choose(5, "operator")
    if op == 4 and k not in (0, 7):
        return
    snap = eng.snapshot()
    m = ["__or__", "__ror__", "__gt__", "__lt__", "__add__"][op]
    if m == "__lt__":
        # file | self: a pipeline or a foreign operand on the left
        if isinstance(o, Ref) and eng.lookup_class(o.cls, "__or__"):
            return
    res = eng.force(eng.call(eng.getattr(c, m), [o]))
    eng.prove(isinstance(res, Ref) and res.oid not in snap["heap"], m + ": a new pipeline")
    eng.prove(eng.is_subclass(res.cls, eng.cls(B)), m + ": a pipeline")
    eng.prove(not w.started, m + ": nothing is started")
    eng.prove(z3.Not(eng.truthy(eng.getattr(res, "_started"))), m + ": not started")
    frame(eng, snap, m)
    inside = [v.oid for v in eng.heap[res.oid].attrs.values() if isinstance(v, Ref)]
    eng.prove(c.oid in inside, m + ": contains the pipeline")
    if k in (0, 7):
        eng.prove(o.oid in inside, m + ": contains the other pipeline")


@P.target("constructors keep exactly what they are given", functions=["pieshell.pipeline.pipe.Pipe.__init__", "pieshell.pipeline.group.Group.__init__",
          "pieshell.pipeline.redirect.CmdRedirect.__init__", "pieshell.pipeline.function.Function.__init__"])
def _(eng):
    w = World(eng)
    a, b = w.command(cls=eng.cls(CMD))[0], w.command(cls=eng.cls(CMD))[0]
    k = eng.choose(4, "class")
    name, attrs = [("pipe.Pipe", ("src", "dst")), ("group.Group", ("a", "b")), ("redirect.CmdRedirect", ("pipeline", "cmd_redirects")), ("function.Function", ("function", "_arg"))][k]
    if k == 2:
        b = eng.new_obj(eng.cls("pieshell.redir.Redirects"), redirects=eng.new_dict(DictRep(None, [])))
    if k == 3:
        a, b = VOpaque(eng.fresh_u("f"), types=["types.FunctionType"], label="function"), VOpaque(eng.fresh_u("x"), label="argument")
    snap = eng.snapshot()
    res = eng.call(VClass(eng.cls("pieshell.pipeline." + name)), [w.env, a, b])
    eng.prove(eng.same(eng.get_raw(res, attrs[0]), a), name + ": first operand")
    y = eng.force(eng.get_raw(res, attrs[1]))
    if k == 3:
        r = models.iter_rope(eng, y)
        eng.prove(r.is_concrete and len(r.concrete()) == 1 and eng.same(r.concrete()[0], b), name + ": arguments")
    else:
        eng.prove(eng.same(y, b), name + ": second operand")
    eng.prove(eng.same(eng.get_raw(res, "_env"), w.env), name + ": environment")
    frame(eng, snap, name)


@P.target("the registry gives the registered class, nothing for other names", functions=[REG + ".get_by_name", REG + ".register"])
def _(eng):
    f = z3.Function("registered", SS, U)
    d = SymDict(eng, "builtins", SS, lambda k: VOpaque(f(k), label="class"), VStr)
    R = eng.cls(REG)
    ref = eng.new_dict(DictRep(d))
    eng.classattrs[(R, "builtins")] = ref
    n, m = eng.fresh_str("name"), eng.fresh_str("new")
    eng.assume(m != S(""))
    cl = VOpaque(eng.fresh_u("cls"), label="class", attrs=["name"])
    if eng.choose(2, "register") == 1:
        eng.call(eng.getattr(VClass(R), "register"), [cl, VStr(m)])
        if eng.decide(n == m, "the registered name"):
            eng.prove(eng.same(eng.call(eng.getattr(VClass(R), "get_by_name"), [VStr(n)]), cl), "registered")
            return
    got = eng.call(eng.getattr(VClass(R), "get_by_name"), [VStr(n)])
    if eng.decide(d.has(n), "known"):
        eng.prove(eng.same(got, d.value(n)), "the registered class")
    else:
        eng.prove(eng.same(got, NONE), "no builtin")

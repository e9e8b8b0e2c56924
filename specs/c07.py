"""C07 pipes, groups and redirection operators.

Every part is known by the contract of _run only (pyvc/tables.py); tables are
arbitrary, looked at at one arbitrary descriptor."""
from pyvc.lib import *
from pyvc import tables
from pyvc.tables import Part, Ledger, ledger, entry_fields, source_kind, install, tracked, frozen, RS, RD, PB
from pyvc.engine import Unsupported
from pyvc.spec import Property

P = Property("C07", trusted=[
    "contracts of Redirects (copy, merge, borrow, make_pipes: C04; make_shared_pipes, close_source_fds: C06)",
    "the parts of a pipeline satisfy the contract of _run (proved for Pipe, Group, CmdRedirect here, Command and Function in C06)",
    "tables have standard input, output and error; builtins run no processes and stay outside",
    "descriptors handed over are pairwise different and different from those lent",
    "a redirection to a pipe yet to be made has no other end yet (proved to be kept for the tables handed to the parts)",
])
B_ = "pieshell.pipeline."
PIPE, GROUP, CR = B_ + "pipe.Pipe", B_ + "group.Group", B_ + "redirect.CmdRedirect"


def spec():
    return install(base_spec())


def no_end_yet(t):
    """a pipe still to be made has no other end"""
    j = t.kinds.index("PIPE")
    t.dict.add_keyfact(lambda k: z3.Implies(z3.And(t.dict._has(k), t.kind(k) == j), t.pkind(k) != 1))


class Setup(object):
    """An arbitrary table with standard descriptors, looked at at one key."""

    def __init__(self, eng, key=None, look=True, where=None):
        self.eng = eng
        self.t = t = Table(eng, "T")
        self.rep = t.rep
        for j in range(3):
            eng.assume(t.dict.has(I(j)))
        t.dict.fams = [(t.fam, t.dict._has)]
        no_end_yet(t)
        if not look:
            return
        k = eng.choose(4, "descriptor") if key is None else key
        self.which = k
        if k < 3:
            self.k = I(k)
        else:
            self.k = eng.fresh_int("fd")
            eng.assume(self.k > 2)
        tracked(eng)[:] = [self.k]
        self.own = self.e = None
        if where is not None and not where(self.k):
            tracked(eng)[:] = []
            return
        self.e = entry_fields(eng, t.rep, self.k)
        if self.e is not None:
            self.kind = source_kind(eng, self.e["source"])
            if self.kind == "int":
                self.lent = eng.decide(t.bor(self.k), "borrowed")
                num = eng.force(self.e["source"]).t
                it = ledger(eng).new("given", num, own=not self.lent)
                self.own = None if self.lent else it

    def frame(self):
        eng = self.eng
        eng.prove(table_content(eng, self.t.ref) is self.rep, "the table given stays as it is")
        if self.e is not None:
            for f in FIELDS:
                eng.prove(same_val(eng, eng.getattr(FRef(self.t.fam, self.k), f), self.t.fam.base(self.k, f)), "the entries given stay as they are")


def given(part, f, k):
    return part.given[f](k)


def inherits(eng, s, part, name, k=None):
    """the part gets the entry of the whole at k, lent; a pipe to the outside
    either as such or already made"""
    k = s.k if k is None else k
    rep = part.runs[0]
    has = models.dict_has(eng, rep, VInt(k))
    eng.prove(has == s.t.dict.has(k), name + ": exactly the descriptors of the whole")
    if s.e is None:
        return None
    for f in ("fd", "flag", "mode"):
        eng.prove(same_val(eng, given(part, f, k), s.e[f]), name + ": descriptor, flags and mode as given")
    src = eng.force(given(part, "source", k))
    if s.kind == "PIPE" and isinstance(src, VInt):
        it = ledger(eng).find(src.t)
        eng.prove(it is not None and it[0] == "made source", name + ": the pipe to the outside")
        eng.prove(eng.truthy(given(part, "borrowed", k)), name + ": lent")
        return src.t
    eng.prove(same_val(eng, src, s.e["source"]), name + ": the source as given")
    if s.kind == "int":
        eng.prove(eng.truthy(given(part, "borrowed", k)), name + ": lent")
    eng.prove(same_val(eng, given(part, "pipe", k), s.e["pipe"]), name + ": the other end as given")
    return None


def processes(eng, res, ps):
    r = models.iter_rope(eng, res)
    want = Rope([])
    for p in ps:
        want = want + Rope([Chunk(p.seq)])
    eng.prove(r.length() == want.length(), "all processes")
    i = eng.fresh_int("i")
    eng.assume(z3.And(i >= 0, i < want.length()))
    eng.prove(eng.same(models.index_rope(eng, r, i), models.index_rope(eng, want, i)), "in order")


def order(eng, ps):
    runs = [x[1] for x in eng.extstate.get("events", []) if isinstance(x, tuple)]
    eng.prove(runs == [p.name for p in ps], "every part is started once, in order")


def result(eng, obj):
    r = eng.force(eng.get_raw(obj, "_redirects"))
    eng.prove(tables.is_table(eng, r), "the descriptors of the whole")
    return table_content(eng, r)


def exposes(eng, s, obj, part, made=None):
    """what the whole exposes at the key: the pipe made for both, or the end
    the part exposes"""
    R = result(eng, obj)
    for j in range(3):
        eng.prove(models.dict_has(eng, R, VInt(j)), "standard descriptors are there for the outside")
    if s.e is None:
        return
    v = entry_at(eng, R, s.k)
    eng.prove(v is not None, "the descriptors of the whole")
    p = eng.force(eng.getattr(v, "pipe"))
    if made is not None:
        eng.prove(isinstance(p, VInt), "the end of the pipe to the outside is exposed")
        it = ledger(eng).find(p.t)
        eng.prove(it is not None and it[0] == "pipe end", "the end of the pipe to the outside is exposed")
    elif isinstance(eng.force(s.e["pipe"]), VInt):
        eng.prove(same_val(eng, p, s.e["pipe"]), "the end of an enclosing pipe stays exposed")
    elif s.kind == "PIPE":
        eng.prove(same_val(eng, p, part.pipe(s.k)), "the end exposed is the one of that part")


def FRef_at(eng, part, k):
    return entry_at(eng, part.Rrep, k)


def balance(eng, obj, s):
    """at the end: exactly the exposed ends are open"""
    R = result(eng, obj)
    for it in ledger(eng).open():
        v = entry_at(eng, R, s.k)
        ok = False
        if v is not None:
            p = eng.force(eng.getattr(v, "pipe"))
            ok = isinstance(p, VInt) and eng.decide(p.t == it[1], "exposed")
        eng.prove(ok, "no descriptor stays open but the exposed ends (%s)" % it[0])
    v = entry_at(eng, R, s.k)
    if v is not None:
        p = eng.force(eng.getattr(v, "pipe"))
        if isinstance(p, VInt):
            it = [x for x in ledger(eng).items if x[1].eq(z3.simplify(p.t))]
            eng.prove(not it or it[0][2], "an exposed end is open")


def run(eng, obj, t):
    sess = eng.new_dict(DictRep(None, []))
    return eng.call(eng.getattr(obj, "_run"), [t.ref, sess])


def pipe(eng, key=None, link=False, both=False):
    s = Setup(eng, key=key, look=not link)
    a, b = Part(eng, "a"), Part(eng, "b")
    if link:
        # the connection itself: a's output, b's input
        a.track, b.track = [I(1)], [I(0)]
    elif both:
        # as well as the descriptor looked at
        a.track = [I(1)] if s.which == 1 else [s.k, I(1)]
        b.track = [I(0)] if s.which == 0 else [s.k, I(0)]
    elif s.which == 0:
        b.track = []        # b's input is the link
    elif s.which == 1:
        a.track = []
    tables.parts(eng, a, b)
    obj = eng.new_obj(eng.cls(PIPE), _env=NONE, _started=VBool(False), src=a.ref, dst=b.ref)
    res = run(eng, obj, s.t)
    return s, a, b, obj, res


@P.target("Pipe._run: a's output to b's input, everything else as given", spec=spec, functions=[PIPE + "._run"])
def _(eng):
    s, a, b, obj, res = pipe(eng)
    x = inherits(eng, s, a, "a") if s.which != 1 else None
    y = inherits(eng, s, b, "b") if s.which != 0 else None
    shared(eng, s, x, y)
    exposes(eng, s, obj, a if s.which == 0 else b, made=x if x is not None else y)
    s.frame()


def shared(eng, s, x, y):
    if s.e is not None and s.kind == "PIPE" and s.which not in (0, 1):
        eng.prove(x is not None and y is not None and x == y, "one pipe for both parts")


@P.target("Pipe._run: the connection is one new pipe, used by nobody else", spec=spec, functions=[PIPE + "._run"])
def _(eng):
    s, a, b, obj, res = pipe(eng, link=True)
    order(eng, [a, b])
    processes(eng, res, [a, b])
    eng.prove(source_kind(eng, given(a, "source", I(1))) == "PIPE", "a's output is a new pipe")
    import os
    eng.prove(models.bitop(eng, "BitAnd", eng.force(given(a, "flag", I(1))).t, I(os.O_WRONLY)) != 0, "a writes to it")
    eng.prove(eng.eq(given(b, "flag", I(0)), VInt(os.O_RDONLY)), "b reads from it")
    out = eng.force(a.pipe(I(1)))
    src = eng.force(given(b, "source", I(0)))
    if isinstance(out, VInt):
        eng.prove(isinstance(src, VInt) and src.t == out.t, "b's input is a's output")
        eng.prove(z3.Not(eng.truthy(given(b, "borrowed", I(0)))), "the pipe is b's to close")
    else:
        eng.prove(isinstance(src, VStr) and src.t == z3.StringVal("/dev/null"), "b reads nothing when a's output goes elsewhere")
    eng.prove(not ledger(eng).open(), "and closed by the parent")


@P.target("Group._run: both parts with the descriptors given", spec=spec, functions=[GROUP + "._run"])
def _(eng):
    s, a, b, obj, res = group(eng)
    order(eng, [a, b])
    processes(eng, res, [a, b])
    x, y = inherits(eng, s, a, "a"), inherits(eng, s, b, "b")
    if s.e is not None and s.kind == "PIPE":
        eng.prove(x is not None and y is not None and x == y, "one pipe for both parts")
    exposes(eng, s, obj, b, made=x if x is not None else y)
    s.frame()


def group(eng):
    s = Setup(eng)
    a, b = Part(eng, "a"), Part(eng, "b")
    tables.parts(eng, a, b)
    obj = eng.new_obj(eng.cls(GROUP), _env=NONE, _started=VBool(False), a=a.ref, b=b.ref)
    res = run(eng, obj, s.t)
    return s, a, b, obj, res


def redirected(eng, owned=False, key=None):
    c = Table(eng, "C")
    c.dict.fams = [(c.fam, c.dict._has)]
    no_end_yet(c)
    p = Part(eng, "p")
    # what is overridden matters for ownership only
    s = Setup(eng, key=key, where=lambda k: owned or not eng.decide(c.dict.has(k), "named"))
    ce = entry_fields(eng, c.rep, s.k)
    if ce is not None and source_kind(eng, ce["source"]) == "int":
        ledger(eng).new("redirected to", eng.force(ce["source"]).t, own=not eng.decide(c.bor(s.k), "borrowed"))
    tables.parts(eng, p)
    obj = eng.new_obj(eng.cls(CR), _env=NONE, _started=VBool(False), pipeline=p.ref, cmd_redirects=c.ref)
    res = run(eng, obj, s.t)
    return s, c, ce, p, obj, res


@P.target("CmdRedirect._run: exactly the named descriptors are overridden", spec=spec, functions=[CR + "._run"])
def _(eng):
    s, c, ce, p, obj, res = redirected(eng)
    order(eng, [p])
    processes(eng, res, [p])
    if ce is None:
        inherits(eng, s, p, "the rest")
    else:
        eng.prove(models.dict_has(eng, p.runs[0], VInt(s.k)), "the named descriptors are there")
        for f in FIELDS:
            eng.prove(same_val(eng, given(p, f, s.k), c.fam.base(s.k, f)), "a named descriptor as named")
    if ce is not None or s.e is not None:
        v = entry_at(eng, result(eng, obj), s.k)
        eng.prove(v is not None and same_val(eng, eng.getattr(v, "pipe"), eng.getattr(FRef_at(eng, p, s.k), "pipe")), "what it exposes")
    s.frame()
    eng.prove(table_content(eng, c.ref) is c.rep, "the redirections named stay as they are")


# ---------------------------------------------------------------- operators

FN = B_ + "function.Function"
CMD = B_ + "command.Command"
STD = {"stdin": 0, "stdout": 1}


class Ops(object):
    """A pipeline and an operand of any kind."""
    KINDS = ("None", "str", "bytes", "path", "redirect", "redirects", "function", "method", "iterable", "iterator", "pipeline")

    def __init__(self, eng, kinds=KINDS):
        self.eng = eng
        self.env = eng.new_obj(eng.cls("pieshell.environ.Environment"), _interactive=VBool(eng.fresh_bool("interactive")))
        cls = [PIPE, FN, CMD, CR, GROUP][eng.choose(5, "kind of pipeline")] if kinds is Ops.KINDS else CMD
        self.p = self.pipeline(cls)
        self.kind = kinds[eng.choose(len(kinds), "operand")]
        self.x = getattr(self, "make_" + self.kind)()

    def pipeline(self, cls):
        e = self.eng
        at = {"_env": self.env, "_started": VBool(False)}
        if cls == CMD:
            at.update(_arg=e.new_list(), _running_process=NONE)
        return e.new_obj(e.cls(cls), **at)

    def opaque(self, **k):
        return VOpaque(self.eng.fresh_u("operand"), label="operand", **k)

    def make_None(self):
        return NONE

    def make_str(self):
        return VStr(self.eng.fresh_str("path"))

    def make_bytes(self):
        return VBytes(self.eng.fresh_str("bpath"))

    def make_path(self):
        return self.opaque(types=["pathlib.PurePath"], attrs=[])

    def make_redirect(self):
        e = self.eng
        self.fd = e.fresh_int("fd")
        return e.new_obj(e.cls(RD), fd=VInt(self.fd), source=self.opaque(types=["?"]), flag=VInt(e.fresh_int("flag")), mode=VInt(e.fresh_int("mode")), pipe=NONE, borrowed=VBool(e.fresh_bool("b")))

    def make_redirects(self):
        self.t = Table(self.eng, "X")
        return self.t.ref

    def make_function(self):
        return self.opaque(types=["types.FunctionType"], attrs=[])

    def make_method(self):
        return self.opaque(types=["types.MethodType"], attrs=[])

    def make_iterable(self):
        return self.opaque(types=[], attrs=["__iter__"])

    def make_iterator(self):
        return self.opaque(types=[], attrs=["__iter__", "__next__"])

    def make_pipeline(self):
        return self.pipeline(CMD)

    # what it has to mean

    def expect(self, res, direction):
        eng = self.eng
        res = eng.force(res)
        eng.prove(isinstance(res, Ref), "a new pipeline")
        if self.kind in ("function", "method", "iterable", "iterator", "pipeline"):
            eng.prove(res.cls is eng.cls(PIPE), "a pipe")
            self.env_of(res)
            mine, other = ("src", "dst") if direction == "stdout" else ("dst", "src")
            eng.prove(eng.same(eng.get_raw(res, mine), self.p), "this pipeline on its side")
            o = eng.force(eng.get_raw(res, other))
            if self.kind == "pipeline":
                eng.prove(eng.same(o, self.x), "the other on the other")
            else:
                eng.prove(isinstance(o, Ref) and o.cls is eng.cls(FN), "the function on the other")
                eng.prove(eng.same(eng.get_raw(o, "function"), self.x), "that function or iterator")
                eng.prove(eng.decide(models.iter_rope(eng, eng.get_raw(o, "_arg")).length() == 0, "no arguments"), "without further arguments")
                self.env_of(o)
            return
        eng.prove(res.cls is eng.cls(CR), "a redirected pipeline")
        self.env_of(res)
        eng.prove(eng.same(eng.get_raw(res, "pipeline"), self.p), "this pipeline")
        t = eng.force(eng.get_raw(res, "cmd_redirects"))
        eng.prove(tables.is_table(eng, t), "redirections")
        if self.kind == "redirects":
            eng.prove(eng.same(t, self.x), "exactly those")
            eng.prove(table_content(eng, t) is self.t.rep, "as they are")
            return
        rep = table_content(eng, t)
        k = eng.fresh_int("k")
        if self.kind == "redirect":
            eng.prove(models.dict_has(eng, rep, VInt(k)) == (k == self.fd), "exactly the named descriptor")
            eng.assume(k == self.fd)
            eng.prove(fields_equal(eng, entry_at(eng, rep, k), self.x), "as named")
            return
        n = STD[direction]
        eng.prove(models.dict_has(eng, rep, VInt(k)) == (k == n), "exactly that descriptor")
        v = entry_at(eng, rep, I(n))
        eng.prove(v is not None, "exactly that descriptor")
        want = VStr("/dev/null") if self.kind == "None" else self.x
        src = eng.force(eng.getattr(v, "source"))
        eng.prove(type(src) is type(want) and same_val(eng, src, want), "that file")
        import os
        eng.prove(eng.eq(eng.getattr(v, "fd"), VInt(n)), "that descriptor")
        eng.prove(eng.eq(eng.getattr(v, "flag"), VInt([os.O_RDONLY, os.O_WRONLY | os.O_CREAT][n])), "opened for reading or writing")
        eng.prove(same_val(eng, eng.getattr(v, "pipe"), NONE), "no pipe")

    def env_of(self, o):
        self.eng.prove(self.eng.same(self.eng.get_raw(o, "_env"), self.env), "in the same environment")


def cmp(eng, op, a, b):
    try:
        return VBool(models.compare(eng, op, a, b))
    except models.ComparisonResult as r:
        return r.args[0]


def opspec():
    s = base_spec()
    s.contracts[PB + ".run"] = lambda e, p, *a: (e.extstate.setdefault("ran", []).append((e.force(p), a)), VOpaque(e.fresh_u("running"), label="running", types=["?"]))[1]
    return s


@P.target("pipeline | x and pipeline > x", spec=opspec, functions=[PB + "._coerce", PB + ".__or__", PB + ".__gt__"])
def _(eng):
    o = Ops(eng)
    op = eng.choose(2, "operator")
    o.expect(models.binop(eng, "BitOr", o.p, o.x) if op == 0 else cmp(eng, "Gt", o.p, o.x), "stdout")


@P.target("x | pipeline and pipeline < x", spec=opspec, functions=[PB + "._coerce", PB + ".__ror__", PB + ".__lt__"])
def _(eng):
    o = Ops(eng)
    op = eng.choose(2, "operator")
    o.expect(models.binop(eng, "BitOr", o.x, o.p) if op == 0 else cmp(eng, "Lt", o.p, o.x), "stdin")


@P.target("pipeline | True is the pipeline; pipeline & x runs pipeline | x", spec=opspec, functions=[PB + ".__or__", PB + ".__and__"])
def _(eng):
    o = Ops(eng, kinds=("str", "pipeline", "iterable", "redirects", "None"))
    if eng.choose(2, "which") == 0:
        eng.prove(eng.same(models.binop(eng, "BitOr", o.p, VBool(True)), o.p), "| True changes nothing")
        return
    models.binop(eng, "BitAnd", o.p, o.x)
    ran = eng.extstate.get("ran", [])
    eng.prove(len(ran) == 1, "run once")
    eng.prove(not ran[0][1], "with nothing else redirected")
    o.expect(ran[0][0], "stdout")


@P.target("a + b: both, in order", spec=opspec, functions=[PB + ".__add__"])
def _(eng):
    o = Ops(eng, kinds=("pipeline",))
    r = eng.force(models.binop(eng, "Add", o.p, o.x))
    eng.prove(isinstance(r, Ref) and r.cls is eng.cls(GROUP), "a group")
    eng.prove(eng.same(eng.get_raw(r, "a"), o.p) , "the first first")
    eng.prove(eng.same(eng.get_raw(r, "b"), o.x), "then the second")
    o.env_of(r)


P.mods = ["redir"]

"""C06 descriptors: what starting a pipeline opens, keeps and closes.

A ledger (pyvc/tables.py) holds every descriptor handed over or created at one
arbitrary entry of the table; closing is proved to be of an open descriptor
that is owned, and at the end exactly what is exposed, or belongs to a
function, is open."""
from pyvc.lib import *
from pyvc import tables, aio
from pyvc.tables import Part, ledger, entry_fields, source_kind, install, tracked, RS, RD, PB
from pyvc.engine import Unsupported
from pyvc.spec import Property
from specs import c07
from specs.c09 import Items
from specs.c07 import Setup, pipe, group, redirected, balance, result, run

P = Property("C06", trusted=[
    "os.pipe, tempfile.mkstemp, os.dup and os.open return new descriptors; os.fork returns in the parent",
    "contracts of Redirects (copy, merge, borrow, make_pipes, make_pipe: C04)",
    "every part of a pipeline keeps the contract of _run (induction over the pipeline)",
    "descriptors handed over are pairwise different and different from those lent",
    "a redirection to a pipe yet to be made has no other end yet (proved to be kept for the tables handed to the parts)",
    "handlers close their descriptor (C08, C09)",
])
B_ = "pieshell.pipeline."
CMD, FN = B_ + "command.Command", B_ + "function.Function"
IO = "pieshell.iterio."
Z = z3.IntSort()


def spec():
    return install(base_spec())


# ---------------------------------------------------------------- one entry, one table

class Fds(object):
    """os calls on descriptors, recorded"""

    def __init__(self, eng):
        self.eng, self.log = eng, []
        x = eng.spec.ext
        x["os.close"] = lambda e, fd: (self.log.append(("close", e.force(fd))), NONE)[1]
        x["os.dup"] = lambda e, fd: self.new("dup", e.force(fd))
        x["os.open"] = lambda e, path, flag, mode=None: self.new("open", e.force(path), e.force(flag), None if mode is None else e.force(mode))

    def new(self, what, *a):
        n = self.eng.fresh_int("new")
        self.log.append((what,) + a + (n,))
        return VInt(n)


def a_redirect(eng):
    kind = ("int", "str", "path")[eng.choose(3, "source")]
    src = {"int": lambda: VInt(eng.fresh_int("source")), "str": lambda: VStr(eng.fresh_str("source")),
           "path": lambda: VOpaque(eng.fresh_u("source"), types=["pathlib.PurePath"], label="path")}[kind]()
    bor = eng.fresh_bool("borrowed")
    r = eng.new_obj(eng.cls(RD), fd=VInt(eng.fresh_int("fd")), source=src, flag=VInt(eng.fresh_int("flag")), mode=VInt(eng.fresh_int("mode")), pipe=NONE, borrowed=VBool(bor))
    return r, kind, src, bor


@P.target("Redirect.close_source_fd: a descriptor that is owned is closed, once; nothing else", spec=base_spec, functions=[RD + ".close_source_fd"])
def _(eng):
    r, kind, src, bor = a_redirect(eng)
    f = Fds(eng)
    eng.call(eng.getattr(r, "close_source_fd"), [])
    if kind == "int" and not eng.decide(bor, "borrowed"):
        eng.prove(len(f.log) == 1 and f.log[0][0] == "close" and eng.eq(f.log[0][1], src), "an owned descriptor is closed, once")
    else:
        eng.prove(not f.log, "nothing else is touched")


@P.target("Redirect.open: the descriptor itself, a duplicate to be closed apart, or the file", spec=base_spec, functions=[RD + ".open"])
def _(eng):
    r, kind, src, bor = a_redirect(eng)
    f = Fds(eng)
    how = eng.choose(3, "borrow")
    n = eng.force(eng.call(eng.getattr(r, "open"), [[], [VBool(True)], [VBool(False)]][how]))
    if kind == "int" and how < 2:
        eng.prove(eng.eq(n, src) and True, "the descriptor itself")
        eng.prove(eng.eq(n, src), "the descriptor itself")
        eng.prove(not f.log, "nothing is opened")
        return
    eng.prove(len(f.log) == 1 and f.log[0][0] == ("dup" if kind == "int" else "open"), "one new descriptor")
    eng.prove(n.t == f.log[0][-1], "which is returned")
    eng.prove(same_val(eng, f.log[0][1], src), "of the source")
    if kind != "int":
        eng.prove(same_val(eng, f.log[0][2], eng.get_raw(r, "flag")), "with its flags")
        eng.prove(f.log[0][3] is not None and same_val(eng, f.log[0][3], eng.get_raw(r, "mode")), "and mode")
    eng.prove(same_val(eng, eng.get_raw(r, "source"), src), "the redirection stays as it is")


class EachSource(LoopSpec):
    """each entry closes its source, once"""

    def __init__(self, t, log):
        self.t, self.log = t, log

    def havoc_assume(self, L):
        del self.log[:]
        if L.i is L.n:
            L.eng.extstate["all"] = True

    def check(self, L, i):
        eng = L.eng
        if z3.is_int_value(i) and i.as_long() == 0:
            eng.prove(not self.log, "nothing closed before")
            return
        k = self.t.dict.key_at(L.i)
        eng.prove(len(self.log) == 1, "each entry is dealt with once")
        for x in self.log:
            eng.prove(eng.same(x, FRef(self.t.fam, k)), "that entry")
        del self.log[:]


@P.target("Redirects.close_source_fds: every entry, once", spec=base_spec, functions=[RS + ".close_source_fds"])
def _(eng):
    t = Table(eng, "A")
    log = []
    eng.spec.contracts[RD + ".close_source_fd"] = lambda e, s: (log.append(s), NONE)[1]
    eng.spec.loops["A"] = lambda e, L: EachSource(t, log)
    f = Fds(eng)
    eng.call(eng.getattr(t.ref, "close_source_fds"), [])
    if not eng.decide(t.dict.n == 0, "empty"):
        eng.prove(bool(eng.extstate.get("all")), "every entry")
    eng.prove(not log and not f.log, "nothing else")
    eng.prove(table_content(eng, t.ref) is t.rep, "the table stays as it is")


@P.target("make_shared_pipes: pipes are made for the pipes asked for, the rest is passed on", spec=base_spec, functions=[RS + ".make_shared_pipes"])
def _(eng):
    t = Table(eng, "A")
    R = eng.cls(RD)
    mp = Fam(eng, "made", R, dict(t.fam.fields, source=lambda k: VInt(z3.Function("made_src", Z, Z)(k)), pipe=lambda k: VInt(z3.Function("made_pipe", Z, Z)(k)), borrowed=lambda k: VBool(False)))
    two = eng.choose(2, "excluded") == 1
    out = [0, 1] if two else []
    pk = t.kinds.index("PIPE")
    shared = lambda k: z3.And([t.kind(k) == pk] + [k != x for x in out])

    def make_pipe(e, self):
        if not (isinstance(self, FRef) and self.fam is t.fam):
            raise Unsupported("make_pipe of another object")
        e.prove(shared(self.key), "only for the pipes asked for")
        return FRef(mp, self.key)
    eng.spec.contracts[RD + ".make_pipe"] = make_pipe
    # registered in the new table: either the entry or what has been made of it
    fam = Fam(eng, "either", R, {f: (lambda f: lambda k: VCase([(shared(k), lambda: eng.getattr(FRef(mp, k), f)), (z3.BoolVal(True), lambda: t.fam.base(k, f))]))(f) for f in FIELDS})
    d = SymDict(eng, "A", Z, lambda k: FRef(fam, k), lambda k: VInt(k), has=t.dict._has, n=t.dict.n)
    d.keyf, d.posf = t.dict.keyf, t.dict.posf
    eng.spec.loops["A"] = lambda e, L: CopyLoop(e, d)
    eng.spec.loops["A.values"] = None
    res = eng.call(eng.getattr(t.ref, "make_shared_pipes"), [], {"exclude": VTuple([VInt(x) for x in out])} if two else {})
    q = eng.fresh_int("k")
    rep = table_content(eng, res)
    eng.prove(has_at(eng, rep, q) == t.dict.has(q), "the same descriptors")
    if eng.decide(t.dict.has(q), "there"):
        v = entry_at(eng, rep, q)
        want = FRef(mp, q) if eng.decide(shared(q), "a pipe asked for") else FRef(t.fam, q)
        eng.prove(fields_equal(eng, v, want), "the pipe made, or the entry as it was")
        eng.prove(is_fresh(eng, v, t.fam, mp), "in entries of their own")
    eng.prove(table_content(eng, t.ref) is t.rep, "the table stays as it is")


@P.target("expose_pipes: entries with an open end are taken over, the rest stays", spec=base_spec, functions=[RS + ".expose_pipes"])
def _(eng):
    a, b = Table(eng, "A"), Table(eng, "B")
    isint = lambda k: b.pkind(k) == 1
    eng.spec.loops["B"] = lambda e, L: CopyLoop(e, b.dict, only=isint)
    eng.call(eng.getattr(a.ref, "expose_pipes"), [b.ref])
    q = eng.fresh_int("k")
    rep = table_content(eng, a.ref)
    eng.prove(has_at(eng, rep, q) == z3.Or(a.dict.has(q), z3.And(b.dict.has(q), isint(q))), "its descriptors and those with an open end")
    if eng.decide(has_at(eng, rep, q), "there"):
        v = entry_at(eng, rep, q)
        if eng.decide(z3.And(b.dict.has(q), isint(q)), "an open end"):
            eng.prove(fields_equal(eng, v, FRef(b.fam, q)), "taken over")
            eng.prove(is_fresh(eng, v, b.fam), "as a copy")
        else:
            eng.prove(fields_equal(eng, v, FRef(a.fam, q)), "the rest stays")
    eng.prove(table_content(eng, b.ref) is b.rep, "the other stays as it is")


# ---------------------------------------------------------------- composed pipelines

@P.target("Pipe: the parent keeps exactly the exposed ends", spec=spec, functions=[B_ + "pipe.Pipe._run"])
def _(eng):
    s, a, b, obj, res = pipe(eng, both=True)
    balance(eng, obj, s)
    s.frame()


@P.target("Group: the parent keeps exactly the exposed ends", spec=spec, functions=[B_ + "group.Group._run"])
def _(eng):
    s, a, b, obj, res = group(eng)
    balance(eng, obj, s)
    s.frame()


def _each(j, name):
    @P.target("CmdRedirect: the parent keeps exactly the exposed ends (%s)" % name, spec=spec, functions=[B_ + "redirect.CmdRedirect._run"])
    def _(eng):
        s, c, ce, p, obj, res = redirected(eng, owned=True, key=j)
        balance(eng, obj, s)
        s.frame()


KEYS = ("standard input", "standard output", "standard error", "any other")
for j, name in enumerate(KEYS):
    _each(j, name)


# ---------------------------------------------------------------- processes

def cmdspec():
    s = spec()
    for c in (CMD, B_ + "command.BaseCommand"):
        s.contracts[c + "._repr"] = lambda e, p: VStr(e.fresh_str("repr"))
    return s


def command(eng, **at):
    env = eng.new_obj(eng.cls("pieshell.environ.Environment"), _interactive=VBool(False))
    return eng.new_obj(eng.cls(CMD), **dict(dict(_env=env, _started=VBool(False), _running_process=NONE, _arg=eng.new_list()), **at))


@P.target("Command: after the fork exactly the exposed ends are open", spec=cmdspec, functions=[CMD + "._run"])
def _(eng):
    s = Setup(eng)
    cmd = command(eng)
    pid = eng.fresh_int("pid")
    eng.assume(pid > 0)
    ev = eng.extstate.setdefault("events", [])

    def fork(e):
        e.prove("close" not in ev and all(x[2] for x in ledger(e).items), "the child gets its descriptors before they are closed")
        ev.append("fork")
        return VInt(pid)
    eng.spec.ext["os.fork"] = fork

    def args(e, c, redirects=None, sess=None, indentation=None):
        # as proved below: ends of pipes of arguments, at further descriptors
        e.prove(redirects is not None and tables.is_table(e, redirects), "pipes of arguments are the child's")
        if e.choose(2, "argument pipe") == 1:
            k, src = e.fresh_int("argfd"), e.fresh_int("argpipe")
            e.assume(k > 2)
            e.assume(z3.Not(models.dict_has(e, table_content(e, e.force(redirects)), VInt(k))))
            for x in tracked(e):
                e.assume(k != x)
            ledger(e).new("argument pipe", src)
            tables.inline(e, RS, "redirect", e.force(redirects), [VInt(k), VInt(src), VInt(0)])
            tracked(e).append(k)
        return e.new_list(Rope([Elems([VStr(e.fresh_str("arg"))])]))
    eng.spec.contracts[CMD + "._arg_list"] = args
    eng.spec.contracts[B_ + "command.BaseCommand._arg_list"] = args
    eng.spec.contracts[B_ + "running.RunningProcess.__init__"] = lambda e, x, c, p: NONE
    run(eng, cmd, s.t)
    eng.prove(ev.count("fork") == 1, "one process")
    R = result(eng, cmd)
    for k in tracked(eng)[1:]:
        v = entry_at(eng, R, k)
        eng.prove(v is not None and isinstance(eng.force(eng.getattr(v, "pipe")), VNone), "the pipe of an argument is not exposed")
    balance(eng, cmd, s)
    s.frame()
    if s.e is not None:
        v = entry_at(eng, R, s.k)
        eng.prove(v is not None, "its descriptors are those of the whole")
        p = eng.force(eng.getattr(v, "pipe"))
        if s.kind == "PIPE":
            eng.prove(isinstance(p, VInt), "the other end of a pipe is exposed")
        elif s.kind == "int":
            eng.prove(same_val(eng, p, s.e["pipe"]), "the other end of a descriptor given is passed on")


@P.target("argument pipes: what the command gets is handed to its table, the rest is lent", spec=cmdspec,
          functions=[CMD + "._handle_arg_pipes", B_ + "command.BaseCommand._arg_list", B_ + "command.BaseCommand._handle_arg_pipes_wrapper"])
def _(eng):
    s = Setup(eng)
    kind = eng.choose(3, "argument")
    part = Part(eng, "argument")
    d = 0 if kind == 1 else 1
    what = [part.ref, VOpaque(eng.fresh_u("function"), types=["types.FunctionType"], attrs=["__call__"], label="function"),
            VOpaque(eng.fresh_u("items"), types=[], attrs=["__iter__"], label="iterable")][kind]
    if kind == 0:
        tables.parts(eng, part)
    else:
        def frun(e, f, *a, **k):
            e.prove(e.same(e.get_raw(f, "function"), what), "the function given")
            part.ref = f
            return part.run(e, *a, **k)
        eng.spec.contracts[FN + "._run"] = frun
    eng.spec.contracts["pieshell.environ.Environment._expand_argument"] = lambda e, env, a: e.new_list(Rope([Elems([a])]))
    free = eng.fresh_int("free")
    eng.assume(free > 2)

    def find(e, t):
        q = table_content(e, t)
        e.assume(z3.Not(models.dict_has(e, q, VInt(free))))
        for x in tracked(e):
            e.assume(free != x)
        return VInt(free)
    eng.spec.contracts[RS + ".find_free_fd"] = find
    cmd = command(eng, _arg=eng.new_list(Rope([Elems([what])])), _running_processes=eng.new_list())
    # the connection's descriptor is looked at as well
    if not eng.decide(s.k == d, "the connection's"):
        part.track = [s.k, I(d)]
    table = s.t.ref
    before = [x for x in ledger(eng).items]
    res = eng.call(eng.getattr(cmd, "_arg_list"), [table, eng.new_dict(DictRep(None, []))])
    args = models.iter_rope(eng, res).concrete()
    eng.prove(len(args) == 1, "one argument")
    eng.prove(len(part.runs) == 1, "it is started")
    g = part.given
    eng.prove(source_kind(eng, g["source"](I(d))) == "PIPE", "connected by a new pipe")
    if s.e is not None and part.track is not None:
        eng.prove(same_val(eng, g["source"](s.k), s.e["source"]), "the rest as given to the command")
        if s.kind == "int":
            eng.prove(eng.truthy(g["borrowed"](s.k)), "and lent")
            for it in before:
                eng.prove(it[2], "the descriptors of the command stay open for it")
    rep = table_content(eng, table)
    v = entry_at(eng, rep, free)
    eng.prove(v is not None, "the command gets a descriptor for it")
    src = eng.force(eng.getattr(v, "source"))
    out = eng.force(part.pipe(I(d)))
    import os
    eng.prove(eng.eq(eng.getattr(v, "flag"), VInt(os.O_WRONLY if d == 0 else os.O_RDONLY)), "to write to a function, to read otherwise")
    if isinstance(out, VInt):
        eng.prove(isinstance(src, VInt) and src.t == out.t, "the other end of the pipe")
        eng.prove(z3.Not(eng.truthy(eng.getattr(v, "borrowed"))), "which is to be closed with its other descriptors")
        it = [x for x in ledger(eng).items if x[1].eq(z3.simplify(out.t))]
        eng.prove(len(it) == 1 and it[0][2], "open until then")
    else:
        eng.prove(isinstance(src, VStr), "a file to read nothing from")
    for x in (s.k,):
        if s.e is not None:
            v = entry_at(eng, rep, x)
            for f in FIELDS:
                eng.prove(same_val(eng, eng.getattr(v, f), s.e[f]), "its other descriptors stay as they are")


# ---------------------------------------------------------------- functions

def fnspec():
    s = spec()
    aio.install(s)
    s.contracts[FN + "._repr"] = lambda e, p: VStr(e.fresh_str("repr"))
    s.contracts[FN + "._function_name"] = lambda e, p: VStr(e.fresh_str("name"))
    return s


def function(eng, key):
    s = Setup(eng, key=key)
    handlers = []

    def handler(e, h, fd, *a, **k):
        b = k.get("borrowed", VBool(False))
        handlers.append((e.force(fd), b))
        return NONE
    for c in ("InputHandler", "LineInputHandler"):
        eng.spec.contracts[IO + c + ".__init__"] = handler
    eng.spec.contracts[IO + "OutputHandler.__init__"] = lambda e, h, fd, it, *a, **k: handler(e, h, fd, **k)
    eng.spec.contracts[B_ + "running.RunningItem.__init__"] = lambda e, x, c, h: NONE
    new = lambda name: (lambda n: (ledger(eng).new(name, n), VInt(n))[1])(eng.fresh_int("new"))

    def dup(e, fd):
        for x in ledger(e).items:
            if x[1].eq(z3.simplify(e.force(fd).t)):
                e.prove(x[2], "duplicated before it is closed")
        return new("a function's own")
    eng.spec.ext["os.dup"] = dup
    eng.spec.ext["os.open"] = lambda e, *a: new("a function's own")
    items = Items(eng, is_async=False, coros=False).it
    called = eng.choose(2, "kind") == 0
    thing = VOpaque(eng.fresh_u("function"), types=["types.FunctionType"], label="function", attrs=["__call__"], methods={"__call__": lambda e, f, *a, **k: items}) if called else items
    env = eng.new_obj(eng.cls("pieshell.environ.Environment"))
    f = eng.new_obj(eng.cls(FN), _env=env, function=thing, _arg=VTuple([]), _kw=eng.new_dict(DictRep(None, [])), _started=VBool(False))
    run(eng, f, s.t)
    eng.prove(len(handlers) == (2 if called else 1), "its input and its output")
    for fd, b in handlers:
        it = [x for x in ledger(eng).items if x[1].eq(z3.simplify(fd.t))]
        eng.prove(len(it) == 1 and it[0][2] and it[0][0] == "a function's own", "descriptors of its own, open")
        eng.prove(z3.Not(eng.truthy(b)), "to be closed by the handler")
        if it:
            eng.prove(len([h for h in handlers if h[0].t.eq(fd.t)]) == 1, "one handler each")
            it[0][2] = False
    balance(eng, f, s)
    s.frame()


def _each(j, name):
    @P.target("Function: the parent keeps the exposed ends and the descriptors its handlers own (%s)" % name, spec=fnspec, functions=[FN + "._run", RD + ".open"])
    def _(eng):
        function(eng, j)


for j, name in enumerate(KEYS):
    _each(j, name)

"""C01 argument vector, directory and environment of the executed program."""
from pyvc.lib import *
from pyvc.spec import Property
from specs.c05 import exec_spec, ChildEnd

P = Property("C01", trusted=[
    "execvpe(file, args, env) runs file with exactly these arguments and variables; chdir sets the directory of the process",
    "_expand_argument (C02), find_free_fd, make_pipes, merging of tables (C04), application of a table in the child (C05) by contract",
    "a path /dev/fd/N contains nothing to expand (C02); str() and str.replace as functions of their arguments",
])
BC = "pieshell.pipeline.command.BaseCommand"
CMD = "pieshell.pipeline.command.Command"
RS = "pieshell.redir.Redirects"
RD = "pieshell.redir.Redirect"
ENV = "pieshell.environ.Environment"
PIPE = "pieshell.pipeline.pipe.Pipe"
FN = "pieshell.pipeline.function.Function"
SS = z3.StringSort()
STRU = z3.Function("str_as_value", SS, U)
EXPN = z3.Function("expansions", U, z3.IntSort())
EXPI = z3.Function("expansion", U, z3.IntSort(), SS)
O_RDONLY, O_WRONLY = 0, 1
KINDS = ("str", "R", "other", "pipeline", "function", "method", "iterable", "iterator")
PIPES = KINDS[3:]
DIR = {"pipeline": "stdout", "function": "stdin", "method": "stdin", "iterable": "stdout", "iterator": "stdout"}


class A01(object):
    """A command with an arbitrary argument list of any length."""

    def __init__(self, eng):
        self.eng = eng
        Z = z3.IntSort()
        nm = eng.fresh_name("arg")
        self.kind = z3.Function(nm + "_kind", Z, Z)
        self.s = z3.Function(nm + "_str", Z, SS)
        self.u = z3.Function(nm + "_val", Z, U)
        self.made = {}
        self.env = eng.new_obj(eng.cls(ENV), _cwd=VStr(eng.fresh_str("cwd")), _scope=NONE, _interactive=VBool(eng.fresh_bool("interactive")))
        self.seq = SymSeq(eng, "argv", at=lambda i: self.elem(z3.simplify(i)))
        self.arg = eng.new_list(Rope([Chunk(self.seq)]))
        self.procs0 = eng.new_list(Rope([Chunk(SymSeq(eng, "procs", at=lambda i: VOpaque(z3.Function("proc", Z, U)(i), label="process")))]))
        self.cmd = eng.new_obj(eng.cls(CMD), _env=self.env, _arg=self.arg, _started=VBool(True), _running_process=NONE, _running_processes=self.procs0)
        self.vkind = z3.Function(nm + "_vkind", SS, Z)
        self.vs = z3.Function(nm + "_vstr", SS, SS)
        self.vu = z3.Function(nm + "_vval", SS, U)
        self.log = []
        sp = eng.spec
        sp.contracts[ENV + "._expand_argument"] = lambda e, self_, a: e.new_list(self.expansion(a))
        sp.contracts[RS + ".find_free_fd"] = lambda e, s: self.free(s)
        sp.contracts[RS + ".__init__"] = self.new_table
        sp.contracts[RS + ".borrow"] = self.borrow
        for c in (PIPE, FN):
            sp.contracts[c + "._run"] = self.run_part
        self.fresh_fds = []

    # ---------------------------------------------------------- values
    def value(self, kind, s, u, key, more=()):
        eng = self.eng

        def pipeline():
            k = ("pl", str(key))
            if k not in self.made:
                self.made[k] = eng.new_obj(eng.cls(PIPE), _env=self.env, _started=VBool(False))
            return self.made[k]

        def r():
            k = ("R", str(key))
            if k not in self.made:
                self.made[k] = eng.new_obj(eng.cls("pieshell.environ.R"), str=VStr(s))
            return self.made[k]
        mk = {"str": lambda: VStr(s), "R": r, "other": lambda: VOpaque(u, types=["?", "-str", "-dict", "-pieshell.environ.R", "-pieshell.pipeline.base.Pipeline", "-types.FunctionType", "-types.MethodType"], label="other"), "pipeline": pipeline,
              "function": lambda: VOpaque(u, types=["types.FunctionType"], label="function", attrs=["__name__"]),
              "method": lambda: VOpaque(u, types=["types.MethodType"], label="method", attrs=["__name__"]),
              "iterable": lambda: VOpaque(u, attrs=["__iter__"], label="iterable"),
              "iterator": lambda: VOpaque(u, attrs=["__next__"], label="iterator")}
        return VCase([(kind == j, mk[k]) for j, k in enumerate(KINDS)] + list(more))

    def elem(self, i):
        eng = self.eng
        eng.assume(z3.And(self.kind(i) >= 0, self.kind(i) <= len(KINDS)))

        def d():
            k = ("dict", str(i))
            if k not in self.made:
                sd = SymDict(eng, "kw", SS, lambda n: self.kwvalue(n), VStr)
                self.made[k] = eng.new_dict(DictRep(sd))
            return self.made[k]
        return self.value(self.kind(i), self.s(i), self.u(i), i, [(z3.BoolVal(True), d)])

    def kwvalue(self, n):
        eng = self.eng
        k = self.vkind(n)
        eng.assume(z3.And(k >= 0, k < len(KINDS) + 2))
        return self.value(k, self.vs(n), self.vu(n), n, [(k == len(KINDS), lambda: VBool(True)), (z3.BoolVal(True), lambda: VBool(False))])

    def expansion(self, v):
        """Contract of _expand_argument (C02)."""
        eng = self.eng
        v = eng.force(v)
        if isinstance(v, VStr):
            t = z3.simplify(v.t)
            while z3.is_app_of(t, z3.Z3_OP_ITE):
                t = t.arg(1) if eng.decide(t.arg(0), "descriptor number") else t.arg(2)
            if t.num_args() and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT and z3.is_string_value(t.arg(0)) and t.arg(0).as_string() == "/dev/fd/":
                return Rope([Elems([v])])
            u = STRU(v.t)
        elif isinstance(v, Ref) and v.cls is eng.cls("pieshell.environ.R"):
            return Rope([Elems([eng.getattr(v, "str")])])
        else:
            return Rope([Elems([v])])
        eng.assume(EXPN(u) >= 1)
        return Rope([Chunk(SymSeq(eng, "exp", n=EXPN(u), at=lambda j: VStr(EXPI(u, j))))])

    # ---------------------------------------------------------- tables
    def new_table(self, e, s, *ops, **kw):
        e.set_raw(s, "$built", VTuple([e.force(o) for o in ops]))
        e.set_raw(s, "redirects", VPoison("abstract table"))
        e.set_raw(s, "$borrowed", VBool(False))
        e.extstate.setdefault("tables", []).append(s)
        return NONE

    def borrow(self, e, s):
        e.set_raw(s, "$borrowed", VBool(True))
        return NONE

    def free(self, s):
        eng = self.eng
        eng.prove(eng.same(s, self.redirects), "the free descriptor is one of the child's table")
        ff = eng.fresh_int("ff")
        eng.assume(ff > 2)
        rep = table_content(eng, s)
        t = self.tab
        t.dict.add_keyfact(lambda k: z3.Implies(t.dict._has(k), z3.And(ff > k, z3.Implies(t.kind(k) == t.kinds.index("int"), ff > t.isrc(k)))))
        for k, v in rep.over:
            eng.assume(ff > k.t)
            if v is not DictRep.DEL:
                src = eng.force(eng.getattr(v, "source"))
                if isinstance(src, VInt):
                    eng.assume(ff > src.t)
        return VInt(ff)

    def run_part(self, e, s, redirects, sess, indentation=None):
        mk = lambda p: e.new_obj(e.cls(RD), fd=VInt(0), source=VInt(e.fresh_int("src")), flag=VInt(0), mode=VInt(0), pipe=p, borrowed=VBool(False))
        p = {d: VInt(e.fresh_int("pipe_" + d)) for d in ("stdin", "stdout")}
        for v in p.values():
            e.assume(v.t >= 0)
        t = e.new_obj(e.cls(RS))
        e.set_raw(t, "redirects", e.new_dict(DictRep(None, [(VInt(0), mk(p["stdin"])), (VInt(1), mk(p["stdout"]))])))
        e.setattr(s, "_redirects", t)
        part = e.new_list(Rope([Chunk(SymSeq(e, "part", at=lambda i: VOpaque(z3.Function("partproc", z3.IntSort(), U)(i), label="process")))]))
        e.extstate.setdefault("runs", []).append((s, redirects, sess, p, part))
        return part

    # ------------------------------------------------------------ loops
    def havoc(self, L):
        """Invariant of both loops: nothing known but what is before, which
        is kept, and the table stays a table."""
        eng = self.eng
        for oid in [m[1] for m in L.mods if m[0] == "content"]:
            c0 = L.entry["heap"][oid].content
            if isinstance(c0, Rope):
                tag = "sofar%d" % oid
                f = z3.Function(eng.fresh_name(tag), z3.IntSort(), U)
                eng.heap[oid].content = c0 + Rope([Chunk(SymSeq(eng, eng.fresh_name(tag), at=lambda i: VOpaque(f(i), label="earlier")))])
            elif oid == eng.force(eng.get_raw(self.redirects, "redirects")).oid:
                self.tab = Table(eng, eng.fresh_name("T"))
                eng.heap[oid].content = self.tab.rep
            L.data.setdefault("pre", {})[oid] = eng.heap[oid].content
        eng.extstate["runs"] = []
        eng.extstate["kwdone"] = []

    def appended(self, L, oid):
        """What this iteration appended to list oid."""
        eng = self.eng
        pre, cur = L.data["pre"][oid], eng.heap[oid].content
        k = 0
        ok = len(cur.segs) >= len(pre.segs)
        tail = []
        if ok:
            for a, b in zip(pre.segs, cur.segs):
                if a is b:
                    continue
                if isinstance(a, Elems) and isinstance(b, Elems) and len(b.vals) >= len(a.vals) and all(x is y for x, y in zip(a.vals, b.vals)):
                    tail.append(Elems(list(b.vals)[len(a.vals):])) if len(b.vals) > len(a.vals) else None
                    continue
                ok = False
        eng.prove(ok, "arguments already there are kept")
        return Rope(tail + list(cur.segs[len(pre.segs):]))

    def contribution(self, v, redirs, name=None):
        """What v must contribute and do (v is not a dict)."""
        eng = self.eng
        v = eng.force(v)
        kind = self.kind_of(v)
        runs = eng.extstate.get("runs", [])
        if kind not in PIPES:
            eng.prove(not runs, "a plain argument starts nothing")
            eng.prove(not table_content(eng, self.redirects).over, "a plain argument opens no descriptor")
            return self.expansion(v)
        eng.prove(len(runs) == 1, "a pipe argument starts exactly its pipeline")
        if len(runs) != 1:
            raise PathEnd()
        s, redirects, sess, p, part = runs[0]
        d = DIR[kind]
        if kind == "pipeline":
            eng.prove(eng.same(s, v), "a pipeline argument is started itself")
        else:
            ok = isinstance(s, Ref) and s.cls is eng.cls(FN)
            eng.prove(ok and eng.same(eng.heap[s.oid].attrs["function"], v), "a function or iterator argument is started as function")
            eng.prove(eng.same(eng.get_raw(s, "_env"), self.env), "in the command's environment")
        eng.prove(eng.same(sess, self.sess), "in the same session")
        ops = eng.heap[redirects.oid].attrs.get("$built")
        ops = ops.rope.concrete() if ops is not None else []
        ok = len(ops) == 2 and isinstance(ops[0], Ref) and isinstance(ops[1], Ref) and ops[1].cls is eng.cls(RD)
        eng.prove(ok, "with the command's redirections and one pipe")
        if ok:
            o0 = eng.heap[ops[0].oid].attrs
            src = o0["$built"].rope.concrete() if "$built" in o0 else []
            eng.prove(len(src) == 1 and src[0].oid == self.redirects.oid, "with the command's redirections")
            eng.prove(z3.simplify(eng.truthy(o0.get("$borrowed", VBool(False)))), "lent, not given away")
            eng.prove(eng.eq(eng.getattr(ops[1], "fd"), VInt(0 if d == "stdin" else 1)), "the pipe is its standard output (input of a function)")
            eng.prove(eng.same(eng.getattr(ops[1], "source"), VClass(eng.cls("pieshell.redir.PIPE"))), "a new pipe")
        # the descriptor
        rep = table_content(eng, self.redirects)
        eng.prove(rep.base is self.tab.dict and len(rep.over) == 1, "exactly one new descriptor")
        if len(rep.over) != 1:
            raise PathEnd()
        k, r = rep.over[0]
        self.tab.dict.touch_key(k.t)
        eng.prove(z3.And(z3.Not(self.tab.dict._has(k.t)), k.t > 2), "which collides with no other descriptor")
        eng.prove(eng.eq(eng.getattr(r, "source"), p[d]), "it is the pipe to that argument")
        eng.prove(eng.eq(eng.getattr(r, "flag"), VInt(O_WRONLY if d == "stdin" else O_RDONLY)), "in the right direction")
        eng.prove(eng.eq(eng.getattr(r, "fd"), k), "under its own number")
        eng.prove(z3.Not(eng.truthy(eng.getattr(r, "borrowed"))), "owned by the command")
        return Rope([Elems([VStr(z3.Concat(S("/dev/fd/"), z3.IntToStr(k.t)))])])

    def kind_of(self, v):
        eng = self.eng
        if isinstance(v, VStr):
            return "str"
        if isinstance(v, VOpaque):
            return v.label
        if isinstance(v, Ref):
            return "pipeline" if v.cls is eng.cls(PIPE) else "R" if v.cls is eng.cls("pieshell.environ.R") else "?"
        return "?"

    def check_procs(self, L):
        eng = self.eng
        runs = eng.extstate.get("runs", [])
        oid = self.procs0.oid
        if oid not in L.data.get("pre", {}):
            eng.prove(not runs, "the processes of pipe arguments are kept")
            return
        app = self.appended(L, oid)
        if not runs:
            eng.prove(app.length() == 0, "no other process is added")
        else:
            same_rope(eng, app, eng.content(runs[0][4]), "the processes of the argument are added")

    def args_list(self, L):
        oids = [o for o in L.data.get("pre", {}) if isinstance(L.entry["heap"][o].content, Rope) and o != self.procs0.oid]
        if len(oids) != 1:
            raise Unsupported("several lists grow in the loop")
        return oids[0]


def same_rope(eng, a, b, name, conv=None):
    conv = conv or (lambda x: x)
    eng.prove(a.length() == b.length(), name + ": as many")
    if z3.is_int_value(z3.simplify(b.length())) and z3.simplify(b.length()).as_long() == 0:
        return
    i = eng.fresh_int("ix")
    eng.assume(z3.And(i >= 0, i < b.length(), i < a.length()))
    x, y = models.rope_getitem(eng, a, VInt(i), VTuple), models.rope_getitem(eng, b, VInt(i), VTuple)
    eng.prove(same_val(eng, x, conv(y)), name + ": each in its place")


class ArgLoop(LoopSpec):
    def __init__(self, w):
        self.w = w

    def havoc_assume(self, L):
        self.w.havoc(L)
        self.w.ctx = None

    def check(self, L, i):
        w, eng = self.w, self.w.eng
        if "pre" not in L.data or z3.is_int_value(i):
            return
        v = eng.force(L.elem)
        app = w.appended(L, w.args_list(L))
        if isinstance(v, Ref) and isinstance(eng.heap[v.oid].content, DictRep):
            if eng.decide(eng.heap[v.oid].content.base.n == 0, "no options"):
                eng.prove(app.length() == 0, "an empty option set contributes nothing")
                return
            eng.prove(eng.extstate.get("kwdone") == ["kw"], "exactly its options are written")
            eng.prove(len(app.segs) == 1 and isinstance(app.segs[0], Chunk), "an option set contributes its options only")
            return
        w.check_procs(L)
        same_rope(eng, app, w.contribution(v, None), "argument")


class KwLoop(LoopSpec):
    def __init__(self, w, tag):
        self.w, self.tag = w, tag

    def havoc_assume(self, L):
        self.w.havoc(L)
        self.w.eng.extstate["kwdone"] = [self.tag]
        self.w.ctx = L

    def check(self, L, i):
        w, eng = self.w, self.w.eng
        if "pre" not in L.data or z3.is_int_value(i):
            return
        pair = models.iter_rope(eng, eng.force(L.elem)).concrete()
        name, v = eng.force(pair[0]), eng.force(pair[1])
        opt = z3.Concat(S("--"), models.ufun("py_replace", name.t, S("_"), S("-")))
        app = w.appended(L, w.args_list(L))
        if isinstance(v, VBool):
            eng.prove(not eng.extstate.get("runs"), "a flag starts nothing")
            if z3.is_true(v.t):
                same_rope(eng, app, Rope([Elems([VStr(opt)])]), "True is --name")
            else:
                eng.prove(app.length() == 0, "False is nothing")
            return
        w.check_procs(L)
        same_rope(eng, app, w.contribution(v, None), "option", conv=lambda y: VStr(z3.Concat(opt, S("="), tostr(eng, y))))


def tostr(eng, y):
    y = eng.force(y)
    if isinstance(y, VStr):
        return y.t
    return models.to_str(eng, y, "str")


class MatchLoop(LoopSpec):
    """Writes every expansion, in order."""

    def __init__(self, w):
        self.w = w

    def seq(self, L, n):
        eng = self.w.eng
        data = L.chunk
        ctx = self.w.ctx

        def at(j):
            m = eng.force(data.at(eng, j))
            if ctx is None:
                return m
            name = eng.force(models.iter_rope(eng, eng.force(ctx.elem)).concrete()[0])
            return VStr(z3.Concat(S("--"), models.ufun("py_replace", name.t, S("_"), S("-")), S("="), tostr(eng, m)))
        return SymSeq(eng, "written", n=n, at=at)

    def havoc_assume(self, L):
        eng = self.w.eng
        for oid in [m[1] for m in L.mods if m[0] == "content"]:
            eng.heap[oid].content = L.entry["heap"][oid].content + Rope([Chunk(self.seq(L, L.i))])

    def check(self, L, i):
        eng = self.w.eng
        for oid in [m[1] for m in L.mods if m[0] == "content"]:
            cur, c0 = eng.heap[oid].content, L.entry["heap"][oid].content
            eng.prove(cur.length() == c0.length() + i, "expansions: one argument each")
            if not z3.is_int_value(i):
                v = models.index_rope(eng, cur, z3.simplify(cur.length() - 1))
                eng.prove(same_val(eng, v, self.seq(L, i).at(eng, z3.simplify(i - 1))), "expansions: each written in order")


def loops(eng, w):
    sp = eng.spec
    sp.loops["argv"] = ArgLoop(w)
    sp.loops["kw.items"] = lambda e, L: KwLoop(w, "kw")
    sp.loops["exp"] = MatchLoop(w)


@P.target("_arg_list(): every argument contributes exactly what it says, in order",
          functions=[BC + "._arg_list", BC + "._handle_arg_pipes_wrapper", CMD + "._handle_arg_pipes", RS + ".redirect", RS + ".register"])
def _(eng):
    w = A01(eng)
    w.tab = Table(eng, "T")
    w.redirects = w.tab.ref
    w.sess = eng.new_dict(DictRep(None, []))
    loops(eng, w)
    res = eng.call(eng.getattr(w.cmd, "_arg_list"), [w.redirects, w.sess])
    eng.prove(isinstance(eng.force(res), Ref), "a list")
    rope = eng.content(eng.force(res))
    if eng.decide(eng.content(w.arg).length() == 0, "no arguments"):
        eng.prove(rope.length() == 0, "no arguments from nothing")
        return
    eng.prove(len(rope.segs) == 1 and isinstance(rope.segs[0], Chunk), "nothing but the arguments")


def run_world(eng):
    w = A01(eng)
    w.given = Table(eng, "G").ref
    made = Table(eng, "M").ref
    argv = eng.new_list(Rope([Chunk(SymSeq(eng, "final", at=lambda j: VStr(z3.Function("finalarg", z3.IntSort(), SS)(j))))]))
    eng.assume(eng.content(argv).length() > 0)
    own = eng.own_table = None
    if eng.choose(2, "own exports") == 1:
        own = eng.new_dict(DictRep(SymDict(eng, "exports", SS, lambda k: VStr(z3.Function("exp_val", SS, SS)(k)), VStr)))
    environ_ = VOpaque(eng.fresh_u("os.environ"), label="os.environ")
    eng.spec.ext_attrs["os.environ"] = lambda e: environ_
    eng.spec.globals["os.environ"] = lambda e: environ_
    eng.heap[w.env.oid].attrs["_exports_value"] = own if own is not None else NONE
    w.exports = own if own is not None else environ_
    w.calls = []

    def make(e, s):
        e.prove(e.same(s, w.given), "pipes are made for the given redirections")
        w.calls.append("make")
        return made

    def arglist(e, s, redirects=None, sess=None, indentation=None):
        e.prove(redirects is not None and e.same(redirects, made), "pipe arguments get descriptors in the child's table")
        w.calls.append("args")
        lst = e.force(e.get_raw(w.cmd, "_running_processes"))
        w.pre_procs = e.content(lst)
        part = Rope([Chunk(SymSeq(e, "argprocs", at=lambda i: VOpaque(z3.Function("argproc", z3.IntSort(), U)(i), label="process")))])
        e.heap[lst.oid].content = e.content(lst) + part
        w.part = part
        return argv
    eng.spec.contracts[RS + ".make_pipes"] = make
    eng.spec.contracts[BC + "._arg_list"] = arglist
    eng.spec.contracts["pieshell.pipeline.base.Pipeline._run"] = lambda e, *a, **k: NONE
    w.made, w.argv = made, argv
    return w


@P.target("in the child: the redirections, the environment's directory, then exec with exactly the arguments and exported variables",
          spec=exec_spec, functions=[CMD + "._run", CMD + "._child"])
def _(eng):
    w = run_world(eng)
    eng.spec.ext["os.fork"] = lambda e: VInt(0)
    rope0 = eng.content(w.argv)

    def perform(e, s):
        e.prove(e.same(s, w.made), "the table with the pipe arguments is applied")
        w.calls.append("perform")
        return NONE

    def chdir(e, p):
        e.prove("perform" in w.calls, "after the redirections")
        e.prove(e.eq(e.force(p), e.get_raw(w.env, "_cwd")), "the environment's directory")
        w.calls.append("chdir")
        return NONE
    eng.spec.contracts[RS + ".perform"] = perform
    eng.spec.ext["os.chdir"] = chdir
    try:
        eng.call(eng.getattr(w.cmd, "_run"), [w.given, eng.new_dict()])
    except PyExc:
        return
    except ChildEnd as c:
        if c.how != "exec":
            return
        f, args, env = c.arg
        eng.prove("chdir" in w.calls and w.calls.index("args") < w.calls.index("perform"), "in the environment's directory")
        first = models.rope_getitem(eng, rope0, VInt(0), VTuple)
        eng.prove(eng.eq(eng.force(f), eng.force(first)), "the program is the first argument")
        same_rope(eng, models.iter_rope(eng, args), rope0, "exactly the arguments")
        eng.prove(env is not None and eng.same(env, w.exports), "exactly the exported variables of the environment")


@P.target("in the parent: the process of the command, after those of its arguments", spec=exec_spec, functions=[CMD + "._run"])
def _(eng):
    w = run_world(eng)
    pid = eng.fresh_int("pid")
    eng.assume(pid > 0)
    eng.spec.ext["os.fork"] = lambda e: VInt(pid)
    made = []

    def init(e, s, cmd, p):
        e.prove(e.same(cmd, w.cmd) and True, "the process belongs to the command")
        e.prove(e.eq(e.force(p), VInt(pid)), "with the child's process id")
        made.append(s)
        return NONE
    eng.spec.contracts["pieshell.pipeline.running.RunningProcess.__init__"] = init
    eng.spec.contracts[RS + ".close_source_fds"] = lambda e, s: w.calls.append("close") or NONE
    res = eng.call(eng.getattr(w.cmd, "_run"), [w.given, eng.new_dict()])
    eng.prove(len(made) == 1, "one process per command")
    same_rope(eng, models.iter_rope(eng, res), w.part.append(made[0]), "processes")
    eng.prove(eng.same(eng.getattr(w.cmd, "_redirects"), w.made), "its redirections are those of the child")

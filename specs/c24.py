"""C24 showing pipelines.

What `repr` stands for in pieshell and everything run in it is
pieshell.pipeline.base.pipeline_repr.  Its contract (second target): while the
standard repr works, repr_state.in_repr is one or more.  Pipeline.__repr__
runs the pipeline only when it is zero (first target); everything that is made
of pipelines shows its parts through repr, and through nothing else (the
others)."""
from pyvc.lib import *
from pyvc.engine import Unsupported, PyExc
from pyvc.spec import Property
from specs import c07, c09

P = Property("C24", trusted=[
    "builtins.repr is pipeline_repr in all modules (the assignment in base.py; checked by running)",
    "DescribableObject: pipeline objects behave like ordinary objects (C03)",
    "the text of redirections, events, tracebacks and system objects is made without running anything",
    "argument expansion (C02) runs nothing",
])
B_ = "pieshell.pipeline."
PB, BASE, CMD, FN = B_ + "base.Pipeline", B_ + "command.BaseCommand", B_ + "command.Command", B_ + "function.Function"
PIPE, GROUP, CR, SUB = B_ + "pipe.Pipe", B_ + "group.Group", B_ + "redirect.CmdRedirect", B_ + "builtins.SubShell"
BI, R_ = B_ + "builtins.", B_ + "running."
RP = R_ + "RunningPipeline"
RS = "pieshell.redir.Redirects"
ENV = "pieshell.environ.Environment"
CLASSES = (CMD, FN, PIPE, GROUP, CR, SUB, BI + "CdBuiltin", BI + "Remote")
RUNS = ("run", "run_interactive", "async_run_interactive", "__str__", "__bytes__", "__iter__", "__aiter__", "__await__", "__pos__", "__invert__", "_run", "to_dataframe")


def opq(eng, name, **k):
    return VOpaque(eng.fresh_u(name), types=["?"], label=name, **k)


def is_pipeline(eng, o):
    return isinstance(o, (Ref, FRef)) and isinstance(o.cls, ClassInfo) and eng.is_subclass(o.cls, eng.cls(PB))


def part_of(t, x):
    """the text x is part of the text t"""
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        if y.get_id() in seen:
            continue
        seen.add(y.get_id())
        if z3.eq(y, x):
            return True
        todo.extend(y.children())
    return False


class Shown(object):
    """repr(x) for every x: a text each; nothing is run."""

    def __init__(self, eng, runs=True):
        self.eng = eng
        self.seen = []
        self.texts = {}
        sp = eng.spec
        sp.ext["builtins.repr"] = lambda e, x: VStr(self.text(x))
        sp.ext["to_str"] = self.other
        if runs:
            for m in RUNS:
                sp.contracts[PB + "." + m] = lambda e, s, *a, **k: e.prove(False, "nothing is run") or NONE
            for c in (CMD, FN, PIPE, GROUP, CR):
                sp.contracts[c + "._run"] = lambda e, s, *a, **k: e.prove(False, "nothing is run") or NONE
            sp.contracts[PB + ".__repr__"] = lambda e, s: e.prove(False, "shown by repr") or VStr(e.fresh_str("repr"))

    def key(self, x):
        return ("ref", x.oid) if isinstance(x, Ref) else ("val", str(self.eng.enc(x)))

    def text(self, x):
        eng = self.eng
        x = eng.force(x)
        k = self.key(x)
        if k not in self.texts:
            self.texts[k] = eng.fresh_str("shown")
        self.seen.append(x)
        return self.texts[k]

    def other(self, eng, v, kind):
        """%s and %r of an object"""
        if is_pipeline(eng, v):
            # str(pipeline) runs it; %r is not repr, and runs it at the prompt
            eng.prove(False, "nothing is run" if kind == "str" else "shown by repr")
            return eng.fresh_str("text")
        if isinstance(v.cls, ClassInfo):
            for m in (("__str__", "__repr__") if kind == "str" else ("__repr__",)):
                hit = eng.lookup_class(v.cls, m)
                if hit:
                    r = eng.force(eng.call(eng.bind(hit[1], v, hit[0]), []))
                    eng.prove(isinstance(r, VStr), "a text")
                    return r.t
        return None

    def has(self, r, x, what):
        """the text r tells about x"""
        eng = self.eng
        r, x = eng.force(r), eng.force(x)
        eng.prove(isinstance(r, VStr), "a text")
        k = self.key(x)
        eng.prove(k in self.texts and part_of(z3.simplify(r.t), self.texts[k]), what)


def attr_now(eng, obj, name):
    return eng.heap[obj.oid].attrs.get(name)


# ------------------------------------------------------- at the prompt or not

@P.target("a pipeline is run exactly when it is shown at the prompt of its interactive environment, not having been started",
          functions=[PB + ".__repr__"])
def _(eng):
    kinds = CLASSES
    env, other = [eng.new_obj(eng.cls(ENV), _interactive=VBool(eng.fresh_bool("interactive")), _cwd=VStr(eng.fresh_str("cwd"))) for i in range(2)]
    interactive = eng.get_raw(env, "_interactive").t
    started = eng.fresh_bool("started")
    cls = eng.cls(kinds[eng.choose(len(kinds), "class")])
    p = eng.new_obj(cls, _env=env, _started=VBool(started))
    rs = eng.force(eng.module_attr(B_ + "base", "repr_state"))
    n = I(0)
    if eng.choose(2, "repr has been used") == 1:
        n = eng.fresh_int("in_repr")
        eng.assume(n >= 0)
        eng.setattr(rs, "in_repr", VInt(n))
    ps = eng.force(eng.getattr(VClass(eng.cls(PB)), "_print_state"))
    around = [None, NONE, env, other][eng.choose(4, "shown in")]
    if around is not None:
        eng.setattr(ps, "env", around)
    ran, shown = [], []
    RUN = ["ok", "keyboard", "PipelineInterrupted", "PipelineSuspended", "PipelineFailed", "other"][eng.choose(6, "run")]
    rp = eng.new_obj(eng.cls(RP))
    exc = None
    if RUN in ("keyboard", "other"):
        exc = eng.alloc(eng.extclass("builtins.KeyboardInterrupt" if RUN == "keyboard" else "builtins.OSError"))
    elif RUN != "ok":
        exc = eng.new_obj(eng.cls(R_ + RUN), pipeline=rp)

    def run(e, s, *a, **k):
        ran.append(s)
        if exc is not None:
            raise PyExc(exc)
        return rp
    eng.spec.contracts[PB + ".run_interactive"] = run
    own = eng.fresh_str("own text")
    fails = eng.choose(2, "its text") == 1
    err = eng.alloc(eng.extclass("builtins.ValueError"))

    def text(e, s, *a, **k):
        shown.append(s)
        e.prove(e.same(e.getattr(ps, "env"), env), "parts are shown as being in the environment")
        if fails:
            raise PyExc(err)
        return VStr(own)
    for c in CLASSES + (PB, BASE):
        eng.spec.contracts[c + "._repr"] = text
    envtext = eng.fresh_str("environment")
    eng.spec.contracts[ENV + ".__repr__"] = lambda e, s: VStr(envtext)
    eng.spec.ext["builtins.repr"] = lambda e, x: VStr(envtext if e.eq(x, env) is not None and e.identical_syn(e.force(x), env) else e.fresh_str("text"))
    eng.spec.ext["to_str"] = lambda e, v, kind: envtext if e.identical_syn(v, env) else e.fresh_str("text")
    want = z3.And(z3.Not(started), interactive, n < 1)
    got = raised = None
    try:
        got = eng.force(eng.call(eng.bind(eng.lookup_class(cls, "__repr__")[1], p, eng.lookup_class(cls, "__repr__")[0]), []))
    except PyExc as e:
        raised = eng.force(e.value)
    if eng.decide(want, "at the prompt"):
        eng.prove(len(ran) == 1 and eng.same(ran[0], p), "run once")
        eng.prove(not shown, "nothing is shown but what it prints")
        if RUN in ("PipelineFailed", "other"):
            eng.prove(raised is not None and eng.same(raised, exc), "its failure is raised")
        else:
            eng.prove(raised is None, "an end at the user's wish is no error")
            eng.prove(isinstance(got, VStr) and got.t == S(""), "nothing else is shown")
    else:
        eng.prove(not ran, "nothing is run")
        eng.prove(len(shown) >= 1 and all(z3.is_true(z3.simplify(eng.same(s, p))) if z3.is_expr(eng.same(s, p)) else eng.same(s, p) for s in shown), "its own text")
        if fails:
            eng.prove(raised is not None and eng.same(raised, err), "an error in showing it is told")
        else:
            eng.prove(raised is None and isinstance(got, VStr), "a text")
            t = z3.simplify(got.t)
            eng.prove(part_of(t, own), "its text")
            if around is env:
                eng.prove(got.t == own, "nothing else, within the same environment")
            else:
                eng.prove(part_of(t, envtext), "and its environment, if that is another one")
    now = attr_now(eng, ps, "env")
    eng.prove(now is None and around is None or now is not None and eng.same(now, NONE if around is None else around), "what is around is shown as before")
    now = attr_now(eng, rs, "in_repr")
    eng.prove(now is None or eng.eq(now, VInt(n)), "repr as before")
    eng.prove(eng.eq(eng.get_raw(p, "_started"), VBool(started)), "the pipeline is as before")
    eng.prove(eng.same(eng.get_raw(p, "_env"), env), "the pipeline is as before")


@P.target("repr: nothing within is at the prompt; it is restored, and always gives a text", functions=[B_ + "base.pipeline_repr"])
def _(eng):
    rs = eng.force(eng.module_attr(B_ + "base", "repr_state"))
    n = I(0)
    if eng.choose(2, "repr has been used") == 1:
        n = eng.fresh_int("in_repr")
        eng.assume(n >= 0)
        eng.setattr(rs, "in_repr", VInt(n))
    obj = opq(eng, "object")
    text = eng.fresh_str("text")
    how = eng.choose(3, "standard repr")
    calls = []

    def std(e, x):
        x = e.force(x)
        if isinstance(x, VOpaque) and x.t is obj.t:
            calls.append(x)
            now = e.force(e.getattr(rs, "in_repr"))
            e.prove(isinstance(now, VInt), "within repr")
            e.prove(now.t == n + 1, "within repr")
            if how == 1:
                e.raise_py("ValueError", "no text")
            if how == 2:
                e.raise_py("RecursionError", "no text")
            return VStr(text)
        return VStr(e.fresh_str("type"))
    eng.spec.ext["builtins.repr"] = std
    eng.spec.ext["builtins.type"] = lambda e, x: opq(e, "type")
    got = None
    try:
        got = eng.force(eng.call(eng.module_attr(B_ + "base", "pipeline_repr"), [obj]))
    except PyExc as e:
        pass
    eng.prove(len(calls) >= 1, "what repr gives")
    eng.prove(isinstance(got, VStr), "always a text")
    if how == 0:
        eng.prove(got.t == text, "the object's own")
    now = attr_now(eng, rs, "in_repr")
    eng.prove(now is not None and eng.eq(now, VInt(n)) or now is None and z3.simplify(n == 0), "as before, whatever happens")


# ---------------------------------------------------------------- the parts

def pipeline(eng, cls=PIPE):
    env = eng.new_obj(eng.cls(ENV), _interactive=VBool(eng.fresh_bool("interactive")))
    return eng.new_obj(eng.cls(cls), _env=env, _started=VBool(eng.fresh_bool("started")))


def show(eng, obj, method="_repr", *a, **k):
    return eng.call(eng.getattr(obj, method), list(a), k)


for cls, parts in ((PIPE, ("src", "dst")), (GROUP, ("a", "b"))):
    def make(cls=cls, parts=parts):
        @P.target("%s: both parts are shown" % cls.split(".")[-1], functions=[cls + "._repr"])
        def _(eng):
            w = Shown(eng)
            a, b = pipeline(eng), pipeline(eng, CMD)
            o = pipeline(eng, cls)
            eng.set_raw(o, parts[0], a)
            eng.set_raw(o, parts[1], b)
            r = show(eng, o)
            w.has(r, a, "the first part")
            w.has(r, b, "the second part")
    make()


@P.target("CmdRedirect: the pipeline and its redirections are shown", functions=[CR + "._repr"])
def _(eng):
    w = Shown(eng)
    p = pipeline(eng)
    t = Table(eng, "T")
    o = pipeline(eng, CR)
    eng.set_raw(o, "pipeline", p)
    # both are of one environment (C07): the pipeline's own text will do
    eng.set_raw(o, "_env", eng.get_raw(p, "_env"))
    eng.spec.contracts[PIPE + "._repr"] = lambda e, s: VStr(w.text(s))
    eng.set_raw(o, "cmd_redirects", t.ref)
    r = show(eng, o)
    w.has(r, p, "the pipeline")
    w.has(r, t.ref, "its redirections")


class Joins(object):
    """sep.join(texts) of a sequence: a text; its elements are looked at"""

    def __init__(self, eng):
        self.eng, self.made = eng, []
        eng.spec.ext["join-symbolic"] = self.join

    def join(self, e, sep, rope):
        t = e.fresh_str("joined")
        self.made.append((t, rope))
        q = e.fresh_int("q")
        if e.decide(z3.And(q >= 0, q < rope.length()), "an element"):
            v = e.force(models.index_rope(e, rope, q))
            e.prove(isinstance(v, VStr), "texts")
        return VStr(t)


@P.target("Command, Builtin: the words are shown", functions=[BASE + "._repr"])
def _(eng):
    w = Shown(eng)
    j = Joins(eng)
    classes = (CMD, SUB, BI + "CdBuiltin")
    o = pipeline(eng, classes[eng.choose(len(classes), "class")])
    words = SymSeq(eng, "words", at=lambda i: VStr(z3.Function("word", z3.IntSort(), z3.StringSort())(i)))
    kind = z3.Function("arg_kind", z3.IntSort(), z3.IntSort())
    parts = pipeline(eng)
    args = SymSeq(eng, "args", at=lambda i: VCase([(kind(i) == 0, lambda: VStr(z3.Function("arg", z3.IntSort(), z3.StringSort())(i))),
                                                  (kind(i) == 1, lambda: parts), (z3.BoolVal(True), lambda: VInt(z3.Function("argn", z3.IntSort(), z3.IntSort())(i)))]))
    eng.spec.contracts[BASE + "._split_args"] = lambda e, s: VTuple([e.new_list(Rope([Chunk(words)])), e.new_list(Rope([Chunk(args)]))])
    if eng.choose(2, "has run") == 1:
        proc = eng.fresh_str("process")
        rp = opq(eng, "process", methods={"_repr": lambda e, s: VStr(proc), "__bool__": lambda e, s: VBool(True)})
        eng.set_raw(o, "_running_process", rp)
    else:
        proc = None
        eng.set_raw(o, "_running_process", NONE)
    r = eng.force(show(eng, o))
    eng.prove(isinstance(r, VStr), "a text")
    t = z3.simplify(r.t)
    for n, seq, what in ((words.n, "words", "the words"), (args.n, "args", "the arguments")):
        if eng.decide(n > 0, what):
            eng.prove(any(part_of(t, x) and any(isinstance(s, Chunk) and s.seq.tag.startswith(seq) for s in rope.segs) for x, rope in j.made), what)
    if proc is not None:
        eng.prove(part_of(t, proc), "the process")


@P.target("showing a command starts none of the pipelines among its arguments", functions=[BASE + "._arg_list", BASE + "._handle_arg_pipes_wrapper", SUB + "._handle_arg_pipes_wrapper"])
def _(eng):
    from specs import c01
    w = Shown(eng)
    a = c01.A01(eng)
    for c in (PIPE, FN):
        eng.spec.contracts[c + "._run"] = lambda e, s, *x, **k: e.prove(False, "nothing is run") or NONE
    eng.spec.contracts[CMD + "._handle_arg_pipes"] = lambda e, s, *x, **k: e.prove(False, "nothing is run") or VStr(e.fresh_str("fd"))
    eng.spec.ext["os.pipe"] = lambda e: e.prove(False, "nothing is opened") or VTuple([VInt(3), VInt(4)])
    cmd = a.cmd
    if eng.choose(2, "class") == 1:
        cmd = eng.new_obj(eng.cls(SUB), **dict(eng.heap[a.cmd.oid].attrs))
        kwvalue = a.kwvalue

        def value(n):
            # subshell has no options; its pipeline is a positional argument
            eng.assume(a.vkind(n) != c01.KINDS.index("pipeline"))
            return kwvalue(n)
        a.kwvalue = value

    class Any(LoopSpec):
        """the list of words so far: any"""

        def havoc_assume(self, L):
            for m in L.mods:
                if m[0] == "content" and m[1] in L.entry["heap"] and isinstance(L.entry["heap"][m[1]].content, Rope):
                    L.eng.heap[m[1]].content = Rope([Chunk(SymSeq(L.eng, L.eng.fresh_name("sofar"), at=lambda i: VOpaque(z3.Function("so_far", z3.IntSort(), U)(i), types=["?"], label="word")))])

        def check(self, L, i):
            pass
    for t in ("argv", "kw", "exp"):
        eng.spec.loops[t] = Any()
    try:
        r = eng.force(eng.call(eng.getattr(cmd, "_arg_list"), []))
    except PyExc as e:
        return          # (a text that can not be made: repr says so)
    eng.prove(isinstance(r, Ref), "a list of words")


@P.target("Function: its name and arguments are shown", functions=[FN + "._repr"])
def _(eng):
    w = Shown(eng)
    x, y, z = pipeline(eng), opq(eng, "x"), pipeline(eng, CMD)
    name = eng.fresh_str("name")
    eng.spec.contracts[FN + "._function_name"] = lambda e, s: VStr(name)
    kind = eng.choose(3, "of")
    thing = [VOpaque(eng.fresh_u("function"), types=["types.FunctionType"], label="function"),
             VOpaque(eng.fresh_u("method"), types=["types.MethodType"], label="method"),
             VOpaque(eng.fresh_u("iterator"), types=["?", "-types.FunctionType", "-types.MethodType"], label="iterator")][kind]
    some = eng.choose(2, "arguments") == 1
    o = pipeline(eng, FN)
    eng.set_raw(o, "function", thing)
    eng.set_raw(o, "_arg", VTuple([x, y] if some else []))
    eng.set_raw(o, "_kw", eng.new_dict(DictRep(None, [(VStr("key"), z)] if some else [])))
    r = eng.force(show(eng, o))
    eng.prove(isinstance(r, VStr), "a text")
    if kind < 2:
        eng.prove(part_of(z3.simplify(r.t), name), "its name")
        for v in (x, y, z) if some else ():
            w.has(r, v, "its arguments")
    else:
        w.has(r, thing, "what it reads")


@P.target("what runs and how it failed is shown without running anything again", functions=[RP + ".__repr__", R_ + "PipelineError.__str__", R_ + "RunningProcess.__repr__", PB + ".__name__"])
def _(eng):
    w = Shown(eng)
    j = Joins(eng)
    p = pipeline(eng, CLASSES[eng.choose(len(CLASSES), "class")])
    what = ["running", "error", "process", "name"][eng.choose(4, "shown")]
    if what == "name":
        ps = eng.force(eng.getattr(VClass(eng.cls(PB)), "_print_state"))
        around = [None, NONE, eng.get_raw(p, "_env"), eng.new_obj(eng.cls(ENV))][eng.choose(4, "shown in")]
        if around is not None:
            eng.setattr(ps, "env", around)
        r = eng.getattr(p, "__name__")
        w.has(r, p, "the pipeline")
        now = attr_now(eng, ps, "env")
        eng.prove(now is not None and eng.same(now, NONE if around is None else around), "what is around is shown as before")
        return
    rp = eng.new_obj(eng.cls(RP), pipeline=p)
    if what == "running":
        r = eng.call(eng.getattr(rp, "__repr__"), [])
        w.has(r, p, "the pipeline")
        return
    if what == "process":
        fdtext = z3.Function("output", z3.IntSort(), z3.StringSort())
        out = SymDict(eng, "outputs", z3.IntSort(), lambda k: VStr(fdtext(k)), VInt)
        proc = eng.new_obj(eng.cls(R_ + "RunningProcess"), cmd=p, output_content=eng.new_dict(DictRep(out)), iohandler=opq(eng, "handler"))

        r = eng.call(eng.getattr(proc, "__repr__"), [])
        w.has(r, p, "the command")
        return
    text = z3.Function("process_text", U, z3.StringSort())
    procs = SymSeq(eng, "failed", at=lambda i: opq_at(eng, i, text))
    eng.spec.contracts[RP + ".failed_processes"] = lambda e, s: e.new_list(Rope([Chunk(procs)]))
    cls = ["PipelineFailed", "PipelineInterrupted", "PipelineSuspended"][eng.choose(3, "error")]
    err = eng.new_obj(eng.cls(R_ + cls), pipeline=rp)
    r = eng.call(eng.getattr(err, "__str__"), [])
    w.has(r, p, "the pipeline")
    if eng.decide(procs.n > 0, "failed processes"):
        eng.prove(any(part_of(z3.simplify(eng.force(r).t), x) for x, rope in j.made), "the processes that failed")


def opq_at(eng, i, text):
    u = z3.Function("failed_process", z3.IntSort(), U)(i)
    return VOpaque(u, types=["?"], label="process", methods={"__repr__": lambda e, s, display_output=None: VStr(text(u))})


# ------------------------------------------------------------------ started

class Quietly(object):
    """what the harness of another property proves is that property's"""

    def __init__(self, eng):
        self.eng = eng

    def __enter__(self):
        self.eng.prove = lambda *a, **k: None

    def __exit__(self, *a):
        del self.eng.prove


def marked(eng, obj):
    eng.prove(eng.truthy(eng.getattr(obj, "_started")), "what runs is marked as started: showing it does not run it again")


@P.target("what has been started is marked so: pipes, groups, redirected pipelines", spec=c07.spec, functions=[PIPE + "._run", GROUP + "._run", CR + "._run", PB + "._run"])
def _(eng):
    how = eng.choose(3, "class")
    with Quietly(eng):
        obj = [lambda: c07.pipe(eng, link=True)[3], lambda: c07.group(eng)[3], lambda: c07.redirected(eng)[4]][how]()
    marked(eng, obj)


@P.target("what has been started is marked so: functions", spec=c09.spec, functions=[FN + "._run", PB + "._run"])
def _(eng):
    with Quietly(eng):
        x = c09.run_function(eng, VOpaque(eng.fresh_u("iterator"), attrs=["__next__"], label="iterator"))
    marked(eng, x[0])


@P.target("what has been started is marked so: commands", functions=[CMD + "._run", PB + "._run"])
def _(eng):
    from specs import c01
    s = c01.exec_spec()
    eng.spec.contracts.update(s.contracts)
    eng.spec.ext.update(s.ext)
    w = c01.run_world(eng)
    del eng.spec.contracts[PB + "._run"]
    eng.set_raw(w.cmd, "_started", VBool(False))
    eng.spec.ext["os.fork"] = lambda e: VInt(77)
    eng.spec.contracts[R_ + "RunningProcess.__init__"] = lambda e, s, *a, **k: NONE
    eng.spec.contracts[RS + ".close_source_fds"] = lambda e, s: NONE
    with Quietly(eng):
        eng.call(eng.getattr(w.cmd, "_run"), [w.given, eng.new_dict(DictRep(None, []))])
    marked(eng, w.cmd)


@P.target("a builtin that is run does its work once, and is marked as started",
          functions=[BI + c + "._run" for c in ("CdBuiltin", "BgBuiltin", "FgBuiltin", "ClearDirCacheBuiltin")] + [PB + "._run"])
def _(eng):
    name = ["CdBuiltin", "BgBuiltin", "FgBuiltin", "ClearDirCacheBuiltin"][eng.choose(4, "builtin")]
    last, given = eng.new_obj(eng.cls(RP)), eng.new_obj(eng.cls(RP))
    path = eng.fresh_str("path")
    done = []
    sp = eng.spec
    sp.contracts[ENV + "._cd"] = lambda e, s, p: done.append(("cd", s, e.force(p))) or s
    sp.contracts[ENV + "._clear_dir_cache"] = lambda e, s: done.append(("clear", s)) or NONE
    sp.contracts[BI + "CdBuiltin._path"] = lambda e, s: VStr(path)
    sp.contracts[RP + ".restart"] = lambda e, s, *a, **k: done.append(("restart", s)) or NONE
    sp.contracts[BI + "RunnningFg.__init__"] = lambda e, s, p: done.append(("wait", p)) or NONE
    env = eng.new_obj(eng.cls(ENV), last_pipeline=last)
    args = eng.choose(2, "argument") == 1
    more = {"CdBuiltin": VStr(eng.fresh_str("dir")), "ClearDirCacheBuiltin": VStr(eng.fresh_str("word"))}.get(name, given)
    o = eng.new_obj(eng.cls(BI + name), _env=env, _started=VBool(False), _running_process=NONE,
                    _arg=eng.new_list(Rope([Elems([VStr(S("name"))] + ([more] if args else []))])))
    res = models.iter_rope(eng, eng.call(eng.getattr(o, "_run"), [eng.new_obj(eng.cls(RS)), eng.new_dict(DictRep(None, []))])).concrete()
    eng.prove(len(done) == 1, "its work is done once")
    d = done[0]
    if name == "CdBuiltin":
        eng.prove(d[0] == "cd" and eng.same(d[1], env) and isinstance(d[2], VStr), "its environment's directory is changed")
        eng.prove(d[2].t == path, "to the path given")
    elif name == "ClearDirCacheBuiltin":
        eng.prove(d[0] == "clear" and eng.same(d[1], env), "its environment's completions are cleared")
    else:
        eng.prove(d[0] == ("restart" if name == "BgBuiltin" else "wait") and eng.same(d[1], given if args else last), "the pipeline given, or the last one")
    eng.prove(len(res) == (1 if name == "FgBuiltin" else 0), "nothing else runs")
    marked(eng, o)


@P.target("a builtin that is run as another command is marked as started", functions=[BI + "BashSource._run", BI + "Remote._run", PB + "._run"])
def _(eng):
    started = []
    out = eng.new_obj(eng.cls(RS))
    sp = eng.spec

    def run(e, s, *a, **k):
        started.append(s)
        e.setattr(s, "_redirects", out)
        return e.new_list(Rope([]))
    for c in (CMD, BASE):
        sp.contracts[c + "._run"] = run
    sp.contracts[ENV + "._expand_argument"] = lambda e, s, a: e.new_list(Rope([Elems([VStr(e.fresh_str("file"))])]))
    sp.contracts[B_ + "builtin.BuiltinRegistry.get_by_name"] = lambda e, *a: NONE     # bash, ssh
    sp.ext["shlex.quote"] = lambda e, t: VStr(e.fresh_str("quoted"))
    sp.ext["pickle.dumps"] = lambda e, o, *a: VBytes(e.fresh_str("pickle"))
    sp.ext["base64.b64encode"] = lambda e, b, *a: VBytes(e.fresh_str("base64"))
    env = eng.new_obj(eng.cls(ENV), _cwd=VStr(eng.fresh_str("cwd")), _interactive=VBool(eng.fresh_bool("interactive")), _scope=NONE)
    name = ["BashSource", "Remote"][eng.choose(2, "builtin")]
    last = VStr(eng.fresh_str("script")) if name == "BashSource" else pipeline(eng)
    o = eng.new_obj(eng.cls(BI + name), _env=env, _started=VBool(False), _running_process=NONE,
                    _arg=eng.new_list(Rope([Elems([VStr(S(name.lower())), VStr(eng.fresh_str("word")), last])])))
    eng.call(eng.getattr(o, "_run"), [eng.new_obj(eng.cls(RS)), eng.new_dict(DictRep(None, []))])
    eng.prove(len(started) == 1, "one command is started")
    marked(eng, o)


# ------------------------------------------------------------------ by name

@P.target("+p, ~p, await p, run_interactive and reading run the pipeline once",
          functions=[PB + "." + m for m in ("__pos__", "__invert__", "__await__", "run_interactive", "async_run_interactive", "__aiter__", "__iter__", "__bytes__", "__str__", "__and__")])
def _(eng):
    runs, waits = [], []
    rp = eng.new_obj(eng.cls(RP))
    lines = opq(eng, "lines")
    fails = eng.choose(4, "outcome")
    exc = eng.new_obj(eng.cls(R_ + ["PipelineFailed", "PipelineFailed", "PipelineSuspended", "PipelineInterrupted"][fails]), pipeline=rp)
    fails = fails > 0

    def run(e, s, redirects=None):
        runs.append((s, redirects))
        return rp

    def wait(e, s):
        def go():
            waits.append(s)
            if fails:
                raise PyExc(exc)
            return NONE
        return VCoro(go, "wait")
    eng.spec.contracts[PB + ".run"] = run
    eng.spec.contracts[RP + ".wait"] = wait
    eng.spec.contracts[RP + ".__aiter__"] = lambda e, s: lines
    loop = opq(eng, "loop", methods={"run_until_complete": lambda e, s, c: e.await_(c)})
    eng.spec.ext["asyncio.get_event_loop"] = lambda e: loop
    p = pipeline(eng, CLASSES[eng.choose(len(CLASSES), "class")])
    how = ["__pos__", "__invert__", "run_interactive", "async_run_interactive", "__aiter__", "__iter__", "__bytes__", "__str__", "__and__"][eng.choose(9, "how")]
    raised = r = None
    cls = eng.class_of(p)
    data, read = opq(eng, "read"), []
    eng.spec.contracts[RP + ".iterbytes"] = lambda e, s, *a, **k: data
    chunks = z3.Function("chunk", z3.IntSort(), z3.StringSort())
    seq = eng.new_list(Rope([Chunk(SymSeq(eng, "chunks", at=lambda i: VBytes(chunks(i))))]))

    def asyncitertoiter(e, it, *a):
        read.append(e.force(it))
        return seq
    eng.spec.contracts["pieshell.utils.asyncutils.asyncitertoiter"] = asyncitertoiter
    eng.spec.ext["join-symbolic"] = lambda e, sep, rope: VBytes(e.fresh_str("output"))
    try:
        hit = eng.lookup_class(cls, how)
        r = eng.call(eng.bind(hit[1], p, hit[0]), [VBool(True)] if how == "__and__" else [])
        if how == "async_run_interactive":
            r = eng.await_(r)
    except PyExc as e:
        raised = eng.force(e.value)
    eng.prove(len(runs) == 1 and eng.same(runs[0][0], p), "run once")
    READS = ("__aiter__", "__iter__", "__bytes__", "__str__")
    if how in ("__invert__", "__and__") + READS:
        eng.prove(not waits and raised is None, "not waited for")
    else:
        eng.prove(len(waits) == 1, "waited for")
        eng.prove((raised is not None) == fails and (not fails or eng.same(raised, exc)), "its failure is raised")
    if how in READS:
        if how == "__aiter__":
            eng.prove(same_val(eng, r, lines), "its lines")
        else:
            eng.prove(len(read) == 1 and same_val(eng, read[0], lines if how == "__iter__" else data), "its output")
        reds = models.iter_rope(eng, runs[0][1]).concrete()
        eng.prove(len(reds) == 1, "its output is read")
        v = eng.force(reds[0])
        eng.prove(eng.eq(eng.getattr(v, "fd"), VInt(1)), "its output is read")
        eng.prove(eng.same(eng.getattr(v, "source"), VClass(eng.cls("pieshell.redir.PIPE"))), "its output is read")
    else:
        x = runs[0][1]
        eng.prove(x is None or isinstance(eng.force(x), VNone) or z3.simplify(models.iter_rope(eng, x).length() == 0), "with the environment's redirections")
        if raised is None:
            eng.prove(eng.same(r, rp), "the running pipeline is given")

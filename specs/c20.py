"""C20 subshells."""
from pyvc.lib import *
from pyvc.spec import Property
from specs.c05 import exec_spec, ChildEnd, start

P = Property("C20", trusted=[
    "fork: a process of its own; _exit ends only that process, with this status; wait status and SIGCHLD: C11",
    "C05's contract of Redirects.perform: the descriptors of the table, every other one closed (so also those of the event loop)",
    "_expand_argument (C02), make_pipes and close_source_fds (C04, C06) by contract",
    "RunningPipeline.wait (C10): returns when the pipeline has ended and succeeded, and otherwise raises",
    "exit codes of ended processes are in 0..255 (the kernel's)",
])
SUB = "pieshell.pipeline.builtins.SubShell"
CMD = "pieshell.pipeline.command.Command"
BC = "pieshell.pipeline.command.BaseCommand"
RS = "pieshell.redir.Redirects"
RN = "pieshell.pipeline.running."
HOW = ("succeeds", "a process fails", "another exception", "interrupted by an exception that is no Exception")


def spec():
    s = exec_spec()
    s.contracts["pieshell.pipeline.base.pipeline_repr"] = lambda eng, o: VStr(eng.fresh_str("repr"))
    for c in (CMD, BC, SUB):
        s.contracts[c + ".__repr__"] = lambda eng, o: VStr(eng.fresh_str("repr"))
        s.contracts[c + "._repr"] = lambda eng, o, *a, **k: VStr(eng.fresh_str("repr"))
    return s


class World(object):
    """A subshell command of an arbitrary pipeline, in its own process."""

    def __init__(self, eng):
        self.eng = eng
        sp = eng.spec
        self.log = []
        self.how = None
        self.cwd = eng.fresh_str("cwd")
        self.env = eng.new_obj(eng.cls("pieshell.environ.Environment"), _cwd=VStr(self.cwd), _scope=NONE,
                               _exports_value=eng.new_dict(DictRep(None, [])), _interactive=VBool(eng.fresh_bool("interactive")))
        self.code = eng.fresh_int("exitcode")
        eng.assume(z3.And(0 <= self.code, self.code <= 255))
        self.last = None                            # kind of the last process
        self.inner = VOpaque(eng.fresh_u("pipeline"), types=["pipeline"], label="pipeline",
                             attrs=["run_interactive"], methods={"run_interactive": self.run})
        self.cmd = eng.new_obj(eng.cls(SUB), _env=self.env, _started=VBool(True), _running_process=NONE,
                               _arg=eng.new_list(Rope([Elems([VStr(S("subshell")), self.inner])])))
        t, self.k0, self.lf = start(eng)
        self.table = t.ref

        def perform(e, table):
            e.prove(e.same(table, self.table), "the subshell's descriptors are applied")
            self.log.append("perform")
            if e.choose(2, "perform fails") == 1:
                ebadf(e, "perform")
            return NONE

        def chdir(e, p):
            e.prove(e.eq(e.force(p), VStr(self.cwd)), "the directory is that of the environment")
            if e.choose(2, "chdir fails") == 1:
                ebadf(e, "chdir")
            self.log.append("chdir")
            return NONE

        def init(e):
            self.log.append("init")
            return NONE
        sp.contracts[RS + ".perform"] = perform
        sp.ext["os.chdir"] = chdir
        sp.contracts["pieshell.init.initialize"] = init
        loop = VOpaque(eng.fresh_u("loop"), types=["loop"], label="loop")
        sp.ext["asyncio.new_event_loop"] = lambda e: (self.log.append("newloop"), loop)[1]

        def setloop(e, lp):
            e.prove(e.same(lp, loop), "the event loop is a new one")
            self.log.append("setloop")
            return NONE
        sp.ext["asyncio.set_event_loop"] = setloop
        procs = [SymSeq(eng, "innerprocs", at=lambda i: VOpaque(z3.Function("innerproc", z3.IntSort(), U)(i), label="process"))]

        def repr_(e, x):
            if e.choose(2, "the error can not be shown") == 1:
                e.raise_py("ValueError", "str")
            return VStr(e.fresh_str("error"))
        sp.contracts[RN + "PipelineError.__str__"] = repr_
        self.procs = procs

    def run(self, eng, pipeline):
        self.log.append("run")
        j = eng.choose(len(HOW), "the pipeline")
        self.how = HOW[j]
        if j == 0:
            return VOpaque(eng.fresh_u("running"), label="running pipeline")
        if j == 1:
            k = eng.choose(2, "its last process: external, function")
            self.last = ("external", "function")[k]
            if k == 0:
                p = eng.new_obj(eng.extclass("builtins.object"), exit_code=VInt(self.code))
            else:
                p = eng.new_obj(eng.extclass("builtins.object"))
            rp = eng.new_obj(eng.extclass("builtins.object"),
                             processes=eng.new_list(Rope([Chunk(self.procs[0]), Elems([p])])), is_failed=VBool(True))
            if k == 0:
                eng.set_raw(rp, "exit_code", VInt(self.code))
            which = ("PipelineFailed", "PipelineInterrupted", "PipelineSuspended")[eng.choose(3, "error")]
            x = eng.alloc(eng.cls(RN + which))
            eng.set_raw(x, "pipeline", rp)
            eng.set_raw(x, "args", VTuple([rp]))
            raise PyExc(x)
        if j == 2:
            eng.raise_py("ValueError", "inner")
        eng.raise_py(("KeyboardInterrupt", "SystemExit", "GeneratorExit")[eng.choose(3, "which")], "inner")


def before(eng, w):
    """what has happened when the pipeline is run"""
    L = w.log
    eng.prove(L.count("run") <= 1, "the pipeline is run once")
    if "run" not in L:
        return
    i = L.index("run")
    for x in ("perform", "chdir", "init", "newloop", "setloop"):
        eng.prove(L[:i].count(x) == 1, "before the pipeline is run: %s, once" % x)
    if all(x in L for x in ("perform", "init", "newloop", "setloop")):
        eng.prove(L.index("perform") < min(L.index("newloop"), L.index("init")), "the event loop is made with the subshell's descriptors")
        eng.prove(L.index("setloop") < L.index("init"), "and signals are handled by it")


def status(eng, w, code):
    """the status is what the outcome demands"""
    code = eng.force(code)
    eng.prove(isinstance(code, VInt), "the status is a number")
    if not isinstance(code, VInt):
        return
    st = models.binop(eng, "Mod", code, VInt(256)).t
    if w.how == "succeeds":
        eng.prove(st == 0, "success is status 0")
        return
    eng.prove(st != 0, "anything else is a status that is not 0")
    if w.how == "a process fails":
        if w.last == "external":
            eng.prove(st == z3.If(w.code != 0, w.code, 1), "the status of the last process, or 1")
        else:
            eng.prove(st == 1, "1 if the last part is a function")


@P.target("in the child: descriptors, directory, event loop, the pipeline; the status of its outcome", spec=spec, functions=[SUB + "._child"])
def _(eng):
    w = World(eng)
    args = eng.new_list(Rope([Elems([VStr(S("subshell")), w.inner])]))
    try:
        eng.call(eng.getattr(w.cmd, "_child"), [w.table, args])
        eng.prove(False, "it never returns")
    except ChildEnd as c:
        eng.prove(c.how == "exit", "it ends its process")
        before(eng, w)
        eng.prove("run" in w.log, "after running the pipeline")
        status(eng, w, c.arg)
    except PyExc as e:
        before(eng, w)
        eng.prove("run" not in w.log or w.how == HOW[3], "an exception escapes only before the pipeline is run, or if it is no Exception")


@P.target("the child ends, with failure unless the pipeline succeeded; it never returns to the parent's program",
          spec=spec, functions=[CMD + "._run", SUB + "._child"])
def _(eng):
    w = World(eng)
    eng.spec.ext["os.fork"] = lambda e: VInt(0)
    eng.spec.contracts[RS + ".make_pipes"] = lambda e, self: self
    eng.spec.contracts["pieshell.pipeline.base.Pipeline._run"] = lambda e, *a, **k: NONE
    eng.spec.contracts[BC + "._arg_list"] = lambda e, self, *a, **k: e.new_list(Rope([Elems([VStr(S("subshell")), w.inner])]))
    try:
        eng.call(eng.getattr(w.cmd, "_run"), [w.table, eng.new_dict()])
        eng.prove(False, "the child never returns into the parent's program")
    except ChildEnd as c:
        eng.prove(c.how == "exit", "the child ends")
        before(eng, w)
        status(eng, w, c.arg)
    except PyExc as e:
        eng.prove(False, "nothing is raised into the parent's program")


@P.target("in the parent: one process, waited for like any other; the pipeline is not started", spec=spec, functions=[
    CMD + "._run", BC + "._arg_list", SUB + "._handle_arg_pipes_wrapper"])
def _(eng):
    w = World(eng)
    pid = eng.fresh_int("pid")
    eng.assume(pid > 0)
    made, forks, closed = [], [], []

    def fork(e):
        forks.append(list(closed))
        return VInt(pid)
    eng.spec.ext["os.fork"] = fork
    eng.spec.contracts[RS + ".make_pipes"] = lambda e, self: self
    eng.spec.contracts[RS + ".borrow"] = lambda e, self: NONE
    eng.spec.contracts[RS + ".__init__"] = lambda e, self, *a, **k: NONE
    eng.spec.contracts[RS + ".close_source_fds"] = lambda e, s: closed.append(s) or NONE
    eng.spec.contracts["pieshell.pipeline.base.Pipeline._run"] = lambda e, *a, **k: NONE

    def init(e, s, cmd, p):
        e.prove(e.same(cmd, w.cmd), "the process belongs to the subshell")
        e.prove(e.eq(e.force(p), VInt(pid)), "with the child's process id")
        made.append(s)
        return NONE
    eng.spec.contracts[RN + "RunningProcess.__init__"] = init
    # C02: what is no string is kept; the name has nothing to expand
    eng.spec.contracts["pieshell.environ.Environment._expand_argument"] = lambda e, s, a: e.new_list(Rope([Elems([a])]))
    arg0 = eng.content(eng.get_raw(w.cmd, "_arg"))
    res = eng.call(eng.getattr(w.cmd, "_run"), [w.table, eng.new_dict()])
    eng.prove(len(forks) == 1 and len(made) == 1, "one process")
    eng.prove(not forks or not forks[0], "forked with its descriptors open")
    rope = models.iter_rope(eng, res)
    items = [x for s in rope.segs if isinstance(s, Elems) for x in s.items]
    eng.prove(all(isinstance(s, Elems) for s in rope.segs) and len(items) == 1 and eng.same(items[0], made[0]), "which is the subshell's process")
    eng.prove(not w.log, "nothing of the pipeline is run, and nothing set up, in the parent")
    eng.prove(eng.content(eng.get_raw(w.cmd, "_arg")) is arg0, "the pipeline is kept as given")
    eng.prove(len(closed) == 1 and eng.same(closed[0], w.table), "the parent's copies of its descriptors are closed")


@P.target("run_interactive: started once, waited for to its end, failure passed on", spec=spec, functions=[
    "pieshell.pipeline.base.Pipeline.run_interactive", "pieshell.pipeline.base.Pipeline.async_run_interactive"])
def _(eng):
    PB = "pieshell.pipeline.base.Pipeline"
    log = []
    boom = eng.alloc(eng.cls(RN + "PipelineFailed"))
    fails = eng.choose(3, "run, wait or nothing fails")

    def wait(e, s):
        def go():
            log.append("wait")
            if fails == 1:
                raise PyExc(boom)
            return NONE
        return VCoro(go, "wait")
    rp = VOpaque(eng.fresh_u("running"), types=["running"], label="running", attrs=["wait", "__await__"], methods={"wait": wait, "__await__": wait})
    p = eng.alloc(eng.cls(CMD))

    def run(e, s, *a, **kw):
        e.prove(e.same(s, p) and not a and not kw, "this pipeline is run, as it is")
        log.append("run")
        if fails == 0:
            raise PyExc(boom)
        return rp
    eng.spec.contracts[PB + ".run"] = run

    def complete(e, s, c):
        log.append("loop")
        return e.await_(c)
    loop = VOpaque(eng.fresh_u("loop"), types=["loop"], label="loop", attrs=["run_until_complete"], methods={"run_until_complete": complete})
    for n in ("asyncio.get_event_loop", "asyncio.get_running_loop"):
        eng.spec.ext[n] = lambda e: loop
    try:
        r = eng.call(eng.getattr(p, "run_interactive"), [])
    except PyExc as e:
        eng.prove(fails != 2 and eng.same(e.value, boom), "what fails is passed on")
        eng.prove(log.count("run") == 1, "run once")
        return
    eng.prove(fails == 2, "it succeeds only if the pipeline does")
    eng.prove(log == ["loop", "run", "wait"], "run once, and waited for")
    eng.prove(eng.same(r, rp), "gives the running pipeline")

"""C10 waiting and completion."""
from pyvc.lib import *
from pyvc import aio
from pyvc.engine import ExtClass, Unsupported
from pyvc.spec import Property

P = Property("C10", trusted=[
    "a process that has ended never runs again and its outcome does not change (C11)",
    "asyncio: tasks run, futures, shield (pyvc/aio.py); between two suspension points nothing else runs",
    "collecting captured output does not fail (C12)",
])
R = "pieshell.pipeline.running."
RP, RI, BI = R + "RunningPipeline", R + "RunningItem", R + "BaseRunningItem"
PB = "pieshell.pipeline.base.Pipeline"
BB = "pieshell.pipeline.builtins."
Z, B = z3.IntSort(), z3.BoolSort()
RUN = z3.Function("running", Z, Z, B)        # epoch, process
FAIL = z3.Function("failed", Z, B)


def spec():
    s = base_spec()
    aio.install(s)
    return s


class W(object):
    """A running pipeline of any number of processes at an arbitrary moment."""

    def __init__(self, eng, contracts=(), listed=None):
        self.eng = eng
        sp = eng.spec
        self.calls = []
        self.fam = Fam(eng, "proc", eng.cls(RI), {"running_pipeline": lambda k: NONE})
        self.seq = SymSeq(eng, "procs", at=lambda i: FRef(self.fam, i))
        self.n = self.seq.n
        eng.ghost["epoch"] = I(0)
        isr = lambda e, p: VBool(self.running(self.key(p)))

        def isf(e, p):
            e.prove(z3.Not(self.running(self.key(p))), "an outcome is asked for only when the process has ended")
            return VBool(FAIL(self.key(p)))
        sp.contracts[RI + ".is_running"] = isr
        eng.classattrs[(eng.cls(BI), "is_failed")] = VProperty(VNative(isf, "is_failed"))
        for m in ("handle_pipeline_finish", "handle_pipeline_finish_destructive", "restart", "suspend", "remove_output_files"):
            for c in (RI, BI):
                sp.contracts[c + "." + m] = (lambda m: lambda e, p, *a: (self.calls.append((m, e.force(p))), NONE)[1])(m)
        # the environment and its list of running pipelines
        self.others = Fam(eng, "other", eng.cls(RP), {})
        o = lambda t: Chunk(SymSeq(eng, t, at=lambda i: FRef(self.others, i)))
        self.before, self.after = o("others1"), o("others2")
        self.interactive = eng.fresh_bool("interactive")
        self.list = eng.alloc(eng.cls("pieshell.utils.LineList"), Rope([self.before, self.after]))
        self.env = eng.new_obj(eng.cls("pieshell.environ.Environment"), _interactive=VBool(self.interactive), running_pipelines=self.list)
        self.pipeline = eng.new_obj(eng.cls(PB), _env=self.env, _started=VBool(True))
        self.procs = eng.new_list(Rope([Chunk(self.seq)]))

    def key(self, p):
        return self.eng.force(p).key

    def running(self, i):
        return RUN(self.eng.ghost["epoch"], i)

    def advance(self):
        """time passes: processes may end, none comes back"""
        eng = self.eng
        e0, e1 = eng.ghost["epoch"], eng.fresh_int("epoch")
        eng.ghost_set("epoch", e1)
        eng.add_fact(self.seq, lambda i: eng.assume(z3.Implies(RUN(e1, i), RUN(e0, i))))

    def any_running(self):
        return z3.Function("any_running", Z, B)(self.eng.ghost["epoch"])

    def any_failed(self):
        """some process has ended and failed"""
        return z3.Function("any_failed", Z, B)(self.eng.ghost["epoch"])

    def by_contract(self):
        """is_running, failed_processes and the lists by what the first target proves"""
        sp, eng = self.eng.spec, self.eng

        def lst(flag):
            def h(e, p):
                f = flag()
                n = e.fresh_int("members")
                e.assume(z3.And(n >= 0, f == (n > 0)))
                return e.new_list(Rope([Chunk(SymSeq(e, "members", n=n, at=lambda i: FRef(self.fam, i)))]))
            return h
        sp.contracts[RP + ".is_running"] = lambda e, p: VBool(self.any_running())
        sp.contracts[RP + ".is_failed"] = lambda e, p: VBool(self.any_failed())
        sp.contracts[RP + ".running_processes"] = lst(self.any_running)
        sp.contracts[RP + ".failed_processes"] = lst(self.any_failed)
        return self

    def running_pipeline(self, finished=None, future=None, suspended=None):
        eng = self.eng
        self.finished0 = eng.fresh_bool("finished") if finished is None else finished
        self.susp0 = eng.fresh_bool("suspended") if suspended is None else suspended
        self.fut = None
        if future is None:
            future = eng.choose(2, "somebody waits")
        fut = aio.new_future(eng)
        if future:
            self.fut = fut
        # a real one, then brought into the arbitrary state
        hf = eng.spec.contracts.get(RP + ".handle_finish")
        eng.spec.contracts[RP + ".handle_finish"] = lambda e, p: NONE
        self.rp = eng.force(eng.call(VClass(eng.cls(RP)), [eng.new_list(Rope([])), self.pipeline]))
        if hf is None:
            del eng.spec.contracts[RP + ".handle_finish"]
        else:
            eng.spec.contracts[RP + ".handle_finish"] = hf
        for k, v in dict(finish_future=self.fut if self.fut is not None else NONE, processes=self.procs, pipeline=self.pipeline,
                         pipeline_suspended=VBool(self.susp0), finished=VBool(self.finished0)).items():
            eng.set_raw(self.rp, k, v)
        return self.rp


# ---------------------------------------------------------------- state

@P.target("running_processes, is_running: exactly the processes that run", spec=spec, functions=[RP + ".running_processes", RP + ".is_running"])
def _(eng):
    w = W(eng)
    rp = w.running_pipeline()
    k = eng.choose(2, "which")
    if k == 0:
        i = eng.fresh_int("i")
        eng.assume(z3.And(i >= 0, i < w.n))
        r = eng.truthy(eng.getattr(rp, "is_running"))
        w.seq.at(eng, i)
        if eng.decide(r, "running"):
            some(eng, w, lambda j: w.running(j), "running: one of the processes runs", eng.getattr(rp, "running_processes"))
        else:
            eng.prove(z3.Not(w.running(i)), "not running: none of the processes runs")
    else:
        exactly(eng, w, eng.getattr(rp, "running_processes"), lambda j: w.running(j), "running processes")
    eng.prove(not w.calls, "asking changes nothing")


def some(eng, w, want, name, lst):
    x = models.rope_getitem(eng, models.iter_rope(eng, eng.force(lst)), VInt(0), VTuple)
    i = w.key(x)
    eng.prove(z3.And(i >= 0, i < w.n, want(i)), name)


def exactly(eng, w, lst, want, name):
    lst = eng.force(lst)
    rope = models.iter_rope(eng, lst)
    n = rope.length()
    if eng.choose(2, "direction") == 0:
        j = eng.fresh_int("j")
        eng.assume(z3.And(j >= 0, j < n))
        x = eng.force(models.rope_getitem(eng, rope, VInt(j), VTuple))
        eng.prove(isinstance(x, FRef) and x.fam is w.fam, name + ": processes of this pipeline")
        eng.prove(z3.And(x.key >= 0, x.key < w.n, want(x.key)), name + ": only those")
    else:
        i = eng.fresh_int("i")
        eng.assume(z3.And(i >= 0, i < w.n, want(i)))
        w.seq.at(eng, i)
        eng.prove(models.contains(eng, lst, FRef(w.fam, i)), name + ": all of those")


@P.target("failed_processes, is_failed: exactly the processes that ended and failed", spec=spec, functions=[RP + ".failed_processes", RP + ".is_failed"])
def _(eng):
    w = W(eng)
    rp = w.running_pipeline()
    bad = lambda j: z3.And(z3.Not(w.running(j)), FAIL(j))
    if eng.choose(2, "which") == 0:
        i = eng.fresh_int("i")
        eng.assume(z3.And(i >= 0, i < w.n))
        r = eng.truthy(eng.getattr(rp, "is_failed"))
        w.seq.at(eng, i)
        if eng.decide(r, "failed"):
            some(eng, w, bad, "failed: one of the processes failed", eng.getattr(rp, "failed_processes"))
        else:
            eng.prove(z3.Not(bad(i)), "not failed: none of the processes failed")
    else:
        exactly(eng, w, eng.getattr(rp, "failed_processes"), bad, "failed processes")


# ----------------------------------------------------------- completion

PHASES = ["handle_pipeline_finish", "handle_pipeline_finish_destructive"]


class Each(LoopSpec):
    """loop over the processes: one call per process, of the method whose turn it is"""

    def __init__(self, w, phases):
        self.w, self.phases = w, phases

    def havoc_assume(self, L):
        self.w.calls = []
        if L.i is L.n:
            L.eng.extstate["passes"] = L.eng.extstate.get("passes", 0) + 1

    def check(self, L, i):
        eng, w = L.eng, self.w
        if z3.is_int_value(i) and i.as_long() == 0:
            return
        p = eng.extstate.get("passes", 0)
        name = self.phases[p] if p < len(self.phases) else None
        eng.prove(name is not None and [c[0] for c in w.calls] == [name], "each process: %s, once" % (name or "nothing more"))
        for c in w.calls:
            eng.prove(eng.same(c[1], L.elem), "of that process")
        w.calls = []


def settle(eng, w, finished, listed, name=""):
    """handle_finish has run: finished says whether the completion work was due"""
    rp = w.rp
    passes = eng.extstate.get("passes", 0)
    now = eng.getattr(rp, "finished").t
    if eng.decide(finished, "completion due"):
        if not eng.decide(w.n == 0, "no process"):
            eng.prove(passes == 2, "every process finishes, then every process is cleaned up")
        eng.prove(now, "the pipeline is finished")
        eng.prove(not has(eng, w), "and no longer listed")
    else:
        eng.prove(passes == 0 and not w.calls, "no completion work while a process runs, or again")
        eng.prove(now == w.finished0, "finished stays as it was")
        eng.prove(has(eng, w) == listed, "and listed as before")
    others(eng, w)
    f = eng.force(eng.getattr(rp, "finish_future"))
    if w.fut is not None:
        eng.prove(aio.state(eng, w.fut) == aio.RESULT, "everybody waiting is woken")
        eng.prove(not (isinstance(f, Ref) and f.oid == w.fut.oid), "and the next waits for something new")
    else:
        eng.prove(isinstance(f, VNone), "nothing to wait for is left behind")
    eng.prove(eng.getattr(rp, "pipeline_suspended").t == w.susp0, "nothing is suspended or resumed")


def has(eng, w):
    return any(isinstance(x, Ref) and x.oid == w.rp.oid for s in eng.content(w.list).segs if isinstance(s, Elems) for x in s.items)


def others(eng, w):
    """the other pipelines listed are as before"""
    segs = [s for s in eng.content(w.list).segs if isinstance(s, Chunk)]
    rest = [x for s in eng.content(w.list).segs if isinstance(s, Elems) for x in s.items if not (isinstance(x, Ref) and x.oid == w.rp.oid)]
    ok = not rest and [s.seq for s in segs] == [w.before.seq, w.after.seq]
    eng.prove(ok, "no other pipeline is listed or dropped")
    if ok:
        eng.prove(z3.And(*[z3.And(s.off == o.off, s.n == o.n) for s, o in zip(segs, (w.before, w.after))]), "no other pipeline is listed or dropped")


@P.target("handle_finish: completion once, when the last process ended; everybody woken", spec=spec, functions=[RP + ".handle_finish"])
def _(eng):
    w = W(eng).by_contract()
    rp = w.running_pipeline()
    listed = eng.choose(2, "listed") == 1
    if listed:
        eng.assume(z3.Not(w.finished0))         # only what is not finished is listed
        eng.set_content(w.list, Rope([w.before, Elems([rp]), w.after]))
    eng.spec.loops["procs"] = Each(w, PHASES)
    eng.call(eng.getattr(rp, "handle_finish"), [])
    settle(eng, w, z3.And(z3.Not(w.any_running()), z3.Not(w.finished0)), listed)


class Back(LoopSpec):
    def __init__(self, w):
        self.w = w

    def havoc_assume(self, L):
        eng, w = L.eng, self.w
        if L.i is L.n:
            eng.extstate["linked"] = True

    def check(self, L, i):
        eng, w = L.eng, self.w
        if z3.is_int_value(i) and i.as_long() == 0:
            return
        v = eng.getattr(L.elem, "running_pipeline")
        eng.prove(eng.same(v, eng.extstate["rp"]), "each process knows its pipeline")


@P.target("RunningPipeline(): every process knows it; completion is checked once", spec=spec, functions=[RP + ".__init__"])
def _(eng):
    w = W(eng).by_contract()
    done = []

    def hf(e, p):
        done.append(e.force(p))
        e.prove(len(done) == 1, "checked once")
        e.prove(z3.Or(w.n == 0, z3.BoolVal(bool(e.extstate.get("linked")))), "when every process knows its pipeline")
        e.prove(z3.Not(e.truthy(e.getattr(p, "finished"))), "not finished yet")
        e.prove(isinstance(e.force(e.getattr(p, "finish_future")), VNone), "nobody waits yet")
        e.prove(e.same(e.getattr(p, "processes"), w.procs), "its processes")
        e.prove(e.same(e.getattr(p, "pipeline"), w.pipeline), "its pipeline")
        e.prove(z3.Not(e.truthy(e.getattr(p, "pipeline_suspended"))), "not suspended")
        return NONE
    eng.spec.contracts[RP + ".handle_finish"] = hf
    eng.spec.loops["procs"] = Back(w)
    rp = eng.alloc(eng.cls(RP))
    eng.extstate["rp"] = rp
    eng.call(eng.getattr(rp, "__init__"), [w.procs, w.pipeline])
    eng.prove(len(done) == 1, "processes that have already ended are noticed")


@P.target("Pipeline.run: a copy is started; listed from then on unless already finished", spec=spec, functions=[PB + ".run"])
def _(eng):
    w = W(eng)
    sp = eng.spec
    kind = eng.choose(3, "redirects")
    rs = eng.new_obj(eng.cls("pieshell.redir.Redirects"), redirects=eng.new_dict(DictRep(SymDict(eng, "given", Z, lambda k: VOpaque(z3.Function("gr", Z, U)(k)), VInt))))
    eng.set_raw(w.env, "_redirects", eng.new_obj(eng.cls("pieshell.redir.Redirects"), redirects=eng.new_dict(DictRep(None, []))))
    red = VOpaque(eng.fresh_u("redirect"), label="redirect")
    made = []

    def mkr(e, self, *a, **k):
        made.append((e.force(self), [e.force(x) for x in a]))
        return NONE
    sp.contracts["pieshell.redir.Redirects.__init__"] = mkr
    copies, runs, sessions = [], [], []
    cp = eng.new_obj(eng.cls(PB), _env=w.env, _started=VBool(False))

    def deepcopy(e, x, *a):
        copies.append(e.force(x))
        return cp
    sp.contracts["pieshell.utils.copy.deepcopy"] = deepcopy
    sess = VOpaque(eng.fresh_u("sess"), label="sess")
    def session(e):
        def body(on_yield):
            sessions.append("enter")
            on_yield(sess)
            sessions.append("exit")
            return NONE
        return VGen(body, "copy_session")
    sp.contracts["pieshell.utils.copy.copy_session"] = session

    def run(e, p, r, *a, **k):
        runs.append((e.force(p), e.force(r)))
        return w.procs
    sp.contracts[PB + "._run"] = run
    fin = eng.fresh_bool("finished at once")
    built = []

    def init(e, p, procs, pl):
        built.append((e.force(p), e.force(procs), e.force(pl)))
        e.prove(z3.BoolVal(not has_any(e, w)), "not listed before")
        e.set_raw(p, "finished", VBool(fin))
        w.rp = e.force(p)
        return NONE
    sp.contracts[RP + ".__init__"] = init
    args = [] if kind == 0 else [rs] if kind == 1 else [eng.new_list(Rope([Elems([red])]))]
    res = eng.force(eng.call(eng.getattr(w.pipeline, "run"), args))
    eng.prove(len(copies) == 1 and copies[0].oid == w.pipeline.oid, "the value itself is copied, once")
    eng.prove(len(runs) == 1 and runs[0][0].oid == cp.oid, "the copy is started, once")
    if kind == 1:
        eng.prove(eng.same(runs[0][1], rs), "with exactly the given table")
    else:
        ok = isinstance(runs[0][1], Ref) and [m for m in made if m[0].oid == runs[0][1].oid]
        eng.prove(bool(ok), "with the environment's redirections and the given ones")
        if ok:
            a = ok[0][1]
            eng.prove(len(a) == (1 if kind == 0 else 2) and bool(a) and isinstance(a[0], Ref) and a[0].oid == eng.getattr(w.env, "_redirects").oid,
                      "the environment's redirections first")
            if kind == 2 and len(a) == 2:
                eng.prove(eng.same(a[1], red), "then the given one")
    eng.prove(len(built) == 1 and built[0][0].oid == res.oid, "one running pipeline, which is returned")
    if built:
        eng.prove(eng.same(built[0][1], w.procs), "with the processes started")
        eng.prove(eng.same(built[0][2], cp), "of the copy")
    segs = eng.content(w.list)
    if eng.decide(fin, "finished at once"):
        eng.prove(not has(eng, w), "what is finished is not listed")
    else:
        n = [x for s in segs.segs if isinstance(s, Elems) for x in s.items if isinstance(x, Ref) and x.oid == res.oid]
        eng.prove(len(n) == 1, "what runs is listed, once")
    others(eng, w)
    eng.prove(eng.same(eng.getattr(w.env, "last_pipeline"), res), "it is the environment's last pipeline")


def has_any(e, w):
    return any(isinstance(s, Elems) and s.items for s in e.content(w.list).segs)


# ---------------------------------------------------------------- items

@P.target("RunningItem: its end is reported once, whatever the outcome", spec=spec, functions=[RI + ".__init__", RI + ".await_finish", RI + ".is_running"])
def _(eng):
    waits, reported = [], []
    ex = eng.alloc(eng.extclass("builtins.ValueError"))
    how = eng.choose(3, "ends")

    def wait():
        waits.append(1)
        eng.prove(not reported, "nothing reported before")
        if how == 1:
            raise PyExc(ex)
        if how == 2:
            eng.raise_py(eng.extclass("asyncio.CancelledError"))
        return NONE
    runs = eng.fresh_bool("handler runs")
    io = VOpaque(eng.fresh_u("iohandler"), label="iohandler", methods={"wait": lambda e, s: VCoro(wait, "wait"), "is_running": VBool(runs)})
    cmd = eng.new_obj(eng.cls(PB))
    cls = [RI, R + "RunningFunction"][eng.choose(2, "class")]
    it = eng.force(eng.call(VClass(eng.cls(cls)), [cmd, io]))
    tasks = aio.take(eng, "tasks")
    eng.prove(len(tasks) == 1, "one task waits for the end")
    eng.prove(not waits, "which starts later")
    eng.prove(eng.same(eng.getattr(it, "cmd"), cmd), "its command")
    eng.prove(eng.truthy(eng.getattr(it, "is_running")) == runs, "it runs as long as its handler")
    pl = VOpaque(eng.fresh_u("pipeline"), label="running pipeline", methods={"handle_finish": lambda e, s: (reported.append(1), NONE)[1]})
    eng.set_raw(it, "running_pipeline", pl)
    try:
        eng.await_(tasks[0])
        eng.prove(how == 0, "a failure is not hidden from the task")
    except PyExc as e:
        if how == 1:
            eng.prove(eng.same(e.value, ex), "exactly that failure")
    eng.prove(len(waits) == 1, "waits for the handler, once")
    eng.prove(len(reported) == 1, "then the pipeline looks whether it is finished, once")


@P.target("outcome: a process fails with a non-zero status, a function with its exception", spec=spec,
          functions=[R + "RunningProcess.is_failed", R + "RunningProcess.exit_code", R + "RunningProcess.pid", R + "RunningFunction.is_failed", RP + ".exit_code"])
def _(eng):
    cmd = eng.new_obj(eng.cls(PB))
    if eng.choose(2, "kind"):
        st = eng.fresh_int("status")
        eng.assume(z3.And(st >= 0, st <= 255))
        pid = eng.fresh_int("pid")
        ev = eng.new_dict(DictRep(None, [(VStr("ssi_status"), VInt(st)), (VStr("ssi_pid"), VInt(pid)), (VStr("ssi_code"), VInt(eng.fresh_int("code")))]))
        io = VOpaque(eng.fresh_u("iohandler"), label="iohandler", methods={"last_event": ev, "pid": VInt(pid), "is_running": VBool(False)})
        it = eng.new_obj(eng.cls(R + "RunningProcess"), cmd=cmd, iohandler=io, details=NONE)
        eng.prove(eng.truthy(eng.getattr(it, "is_failed")) == (st != 0), "fails exactly with a non-zero status")
        eng.prove(eng.same(eng.getattr(it, "exit_code"), VInt(st)), "its exit status")
        eng.prove(eng.same(eng.getattr(it, "pid"), VInt(pid)), "its process id")
        if eng.choose(2, "pipeline"):
            rp = eng.alloc(eng.cls(RP))
            first = VOpaque(eng.fresh_u("first"), label="first")
            eng.set_raw(rp, "processes", eng.new_list(Rope([Chunk(SymSeq(eng, "front", at=lambda i: first)), Elems([it])])))
            eng.prove(eng.same(eng.getattr(rp, "exit_code"), VInt(st)), "a pipeline's exit status is its last process's")
        return
    exc = eng.choose(3, "exception")
    if exc == 2:
        v = VOpaque(eng.fresh_u("exception"), label="exception", types=["?"])
    else:
        v = eng.alloc(eng.extclass("builtins.ValueError")) if exc else NONE
    io = VOpaque(eng.fresh_u("iohandler"), label="iohandler", methods={"exception": v, "is_running": VBool(False)})
    it = eng.new_obj(eng.cls(R + "RunningFunction"), cmd=cmd, iohandler=io, output_content=eng.new_dict(DictRep(None, [])))
    eng.prove(eng.truthy(eng.getattr(it, "is_failed")) == (exc != 0), "fails exactly with an exception")


@P.target("fg: ends with the pipeline it waits for, or when that is suspended again", spec=spec,
          functions=[BB + "RunnningFg.__init__", BB + "RunnningFg.await_finish", BB + "RunnningFg.is_running", BB + "RunnningFg.is_failed"])
def _(eng):
    w = W(eng).by_contract()
    rp = w.running_pipeline()
    reported = []
    it = eng.force(eng.call(VClass(eng.cls(BB + "RunnningFg")), [rp]))
    tasks = aio.take(eng, "tasks")
    eng.prove(len(tasks) == 1, "one task waits")
    eng.prove(eng.truthy(eng.getattr(it, "is_running")) == w.any_running(), "it runs as long as the pipeline")
    eng.prove(eng.truthy(eng.getattr(it, "is_failed")) == w.any_failed(), "it fails as the pipeline does")
    how = eng.choose(4, "the wait ends")

    def wait(e, p):
        def run():
            w.advance()
            if how == 2:
                ex = eng.alloc(eng.cls(R + "PipelineSuspended"))
                raise PyExc(ex)
            if how == 3:
                eng.raise_py(eng.extclass("asyncio.CancelledError"))
            eng.assume(z3.Not(w.any_running()))          # what waiting promises
            if how == 1:
                raise PyExc(eng.alloc(eng.cls(R + "PipelineFailed")))
            return NONE
        return VCoro(run, "wait")
    eng.spec.contracts[RP + ".wait"] = wait
    fgp = eng.alloc(eng.cls(RP))
    for k, v in dict(finish_future=NONE, finished=VBool(False), pipeline_suspended=VBool(False), pipeline=w.pipeline,
                     processes=eng.new_list(Rope([Elems([it])]))).items():
        eng.set_raw(fgp, k, v)

    def hf(e, p):
        reported.append((e.truthy(e.getattr(it, "is_running")), e.truthy(e.getattr(p, "pipeline_suspended"))))
        return NONE
    eng.spec.contracts[RP + ".handle_finish"] = hf
    eng.set_raw(it, "running_pipeline", fgp)
    try:
        eng.await_(tasks[0])
    except PyExc:
        pass
    eng.prove(len(reported) == 1, "the pipeline looks whether it is finished, once")
    if how != 3:
        eng.prove(z3.Not(reported[0][0]), "and finds that it is")
        eng.prove(reported[0][1] == (how == 2), "suspended exactly if the pipeline waited for is")


# -------------------------------------------------------------- waiting

class Waiting(object):
    def __init__(self, eng, w):
        self.eng, self.w = eng, w
        eng.spec.contracts["pieshell.signalio.SignalHandler.__init__"] = lambda e, p, f: NONE
        self.handler = eng.force(eng.call(VClass(eng.cls(R + "StopSignalHandler")), []))
        if eng.get_raw(self.handler, "waited_for") is None:
            raise Unsupported("how the waits in progress are kept")
        # any number of other waits have begun before
        self.older = Chunk(SymSeq(eng, "older", at=lambda i: FRef(w.others, i)))
        self.list = eng.new_list(Rope([self.older]))
        eng.set_raw(self.handler, "waited_for", self.list)
        eng.globals[("pieshell.pipeline.running", "stop_signal_handler")] = self.handler
        eng.extstate["suspend"] = self.suspend
        eng.spec.ext["asyncio.shield"] = self.shield
        self.event = None
        w.calls = []

    def shield(self, eng, f, **kw):
        f = eng.force(f)
        r = aio.new_future(eng, eng.get_raw(f, "$state").t)
        eng.set_raw(r, "$inner", f)
        return r

    def suspend(self, eng, fut):
        """the waiter sleeps; anything may happen until it continues"""
        w = self.w
        rp = w.rp
        inner = eng.get_raw(fut, "$inner") or fut
        cur = eng.force(eng.getattr(rp, "finish_future"))
        eng.prove(isinstance(cur, Ref) and cur.oid == inner.oid, "it sleeps on what completion and suspension wake")
        eng.prove(aio.state(eng, inner) == aio.PENDING, "which has not happened yet")
        if w.pending is not None:
            eng.prove(inner.oid == w.pending.oid, "on the same as those who wait already")
        eng.prove(w.any_running(), "it sleeps only while a process runs")
        eng.prove(z3.Not(eng.truthy(eng.getattr(rp, "pipeline_suspended"))), "and only if not suspended")
        if eng.decide(w.interactive, "interactive"):
            eng.prove(eng.same(eng.getattr(self.handler, "current_pipeline"), rp), "the terminal's stop signal is for this pipeline")
        self.event = k = eng.choose(3, "continues")
        if k == 1:          # the waiter is cancelled: what it awaits is cancelled
            eng.set_raw(fut, "$state", VInt(aio.CANCELLED))
            f = eng.force(eng.getattr(rp, "finish_future"))
            eng.prove(isinstance(f, Ref) and z3.simplify(aio.state(eng, f) == aio.PENDING), "the others still wait for what will happen")
            return
        if k == 2:
            eng.raise_py("KeyboardInterrupt")
        w.advance()
        eng.set_raw(inner, "$state", VInt(aio.RESULT))
        eng.set_raw(fut, "$state", VInt(aio.RESULT))
        eng.set_raw(rp, "pipeline_suspended", VBool(eng.fresh_bool("suspended now")))
        eng.set_raw(rp, "finished", VBool(eng.fresh_bool("finished now")))
        eng.set_raw(rp, "finish_future", aio.new_future(eng) if eng.choose(2, "others wait again") else NONE)


class Again(LoopSpec):
    """the future is None or has not happened"""

    def __init__(self, w):
        self.w = w

    def havoc_assume(self, L):
        eng, rp = L.eng, self.w.rp
        k = eng.choose(2, "a future")
        self.w.pending = aio.new_future(eng) if k else None
        eng.set_raw(rp, "finish_future", self.w.pending if k else NONE)
        for a in ("pipeline_suspended", "finished"):
            eng.set_raw(rp, a, VBool(eng.fresh_bool(a)))
        eng.ghost_set("epoch", eng.fresh_int("epoch"))

    def check(self, L, i):
        eng, rp = L.eng, self.w.rp
        f = eng.force(eng.getattr(rp, "finish_future"))
        eng.prove(isinstance(f, VNone) or z3.simplify(aio.state(eng, f) == aio.PENDING), "the future has not happened yet")
        if z3.is_int_value(i) and i.as_long() == 0 and self.w.fut is not None:
            eng.prove(isinstance(f, Ref) and f.oid == self.w.fut.oid, "those who wait already stay known")


def waiting(eng):
    w = W(eng).by_contract()
    w.running_pipeline()
    q = Waiting(eng, w)
    eng.spec.loops["procs"] = Each(w, ["restart", "suspend"])
    eng.spec.whiles[RP + ".wait"] = Again(w)
    return w, q


@P.target("wait: returns when nothing runs; failure, suspension, interruption as they are", spec=spec, functions=[RP + ".wait", R + "PipelineError.__init__"])
def _(eng):
    w, q = waiting(eng)
    rp = w.rp
    res = exc = None
    try:
        how = eng.choose(2, "spelling")
        res = eng.await_(eng.call(eng.getattr(rp, "wait"), []) if how == 0 else rp)
    except PyExc as e:
        exc = eng.force(e.value)
    passes = eng.extstate.get("passes", 0)
    susp = eng.truthy(eng.getattr(rp, "pipeline_suspended"))
    if exc is None:
        eng.prove(z3.Not(w.any_running()), "success: no process runs")
        eng.prove(z3.Not(w.any_failed()), "success: no process failed")
        eng.prove(z3.Not(susp), "success: not suspended")
    elif isinstance(exc.cls, ClassInfo):
        eng.prove(eng.same(eng.getattr(exc, "pipeline"), rp), "the exception names this pipeline")
        n = exc.cls.name
        if n == "PipelineFailed":
            eng.prove(z3.Not(w.any_running()), "failure: no process runs")
            eng.prove(w.any_failed(), "failure: some process failed")
            eng.prove(z3.Not(susp), "failure: not suspended")
        elif n == "PipelineSuspended":
            eng.prove(susp, "suspension: it was suspended")
        elif n == "PipelineInterrupted":
            eng.prove(q.event == 2, "interruption: by the keyboard")
        else:
            eng.prove(False, "no other outcome")
        eng.prove((q.event == 2) == (n == "PipelineInterrupted"), "a keyboard interrupt is reported as one")
    else:
        eng.prove(q.event == 1 and exc.cls.qualname == "asyncio.CancelledError", "cancelled only if cancelled")
    eng.prove(not w.calls, "nothing else is done to the processes")


P.mods = ["running"]

"""C19 suspend and resume."""
from pyvc.lib import *
from pyvc import aio
from pyvc.engine import Unsupported
from pyvc.spec import Property
from specs import c10
from specs.c10 import W, Waiting, Each, RP, RI, BI, R, PB, BB, FAIL

P = Property("C19", trusted=[
    "os.kill(pid, sig) sends sig to pid only, or raises ProcessLookupError when there is no such process",
    "a handler's is_running is false from the moment its process's end was delivered (C11)",
    "asyncio's tasks, futures and shield (pyvc/aio.py)",
])
CONT, STOP, TSTP = 18, 19, 20
Z, B = z3.IntSort(), z3.BoolSort()
SH = R + "StopSignalHandler"


def spec():
    s = c10.spec()
    return s


def kills(eng, gone):
    """os.kill records; it raises ProcessLookupError if the process is gone"""
    log = []

    def kill(e, pid, sig):
        log.append((e.force(pid), e.force(sig)))
        if e.decide(gone, "gone"):
            e.raise_py("ProcessLookupError")
        return NONE
    eng.spec.ext["os.kill"] = kill
    return log


@P.target("a process: SIGSTOP and SIGCONT to its own id, once, exactly while it runs", spec=spec,
          functions=[R + "RunningProcess.suspend", R + "RunningProcess.restart", R + "RunningProcess.pid", RI + ".is_running"])
def _(eng):
    runs, gone = eng.fresh_bool("runs"), eng.fresh_bool("gone")
    log = kills(eng, gone)
    pid = eng.fresh_int("pid")
    eng.assume(pid > 0)
    io = VOpaque(eng.fresh_u("iohandler"), label="iohandler", methods={"pid": VInt(pid), "is_running": VBool(runs)})
    it = eng.new_obj(eng.cls(R + "RunningProcess"), cmd=eng.new_obj(eng.cls(PB)), iohandler=io, details=NONE)
    k = eng.choose(2, "operation")
    try:
        eng.call(eng.getattr(it, ["suspend", "restart"][k]), [])
    except PyExc as e:
        eng.prove(False, "a process that disappears disturbs nothing")
        return
    if eng.decide(runs, "runs"):
        eng.prove(len(log) == 1, "one signal")
        for p, s in log:
            eng.prove(eng.same(p, VInt(pid)), "to that process")
            eng.prove(eng.same(s, VInt([STOP, CONT][k])), ["SIGSTOP", "SIGCONT"][k])
    else:
        eng.prove(not log, "no signal once it has ended")


@P.target("a process's id is the one it was made with", spec=spec, functions=[R + "RunningProcess.__init__", "pieshell.signalio.ProcessSignalHandler.__init__"])
def _(eng):
    aio.install(eng.spec)
    pid = eng.fresh_int("pid")
    eng.assume(pid > 0)
    log = kills(eng, z3.BoolVal(False))
    details = eng.choose(2, "details")

    def pstree(e, *a, **k):
        if details:
            raise PyExc(e.alloc(e.extclass("builtins.ValueError")))
        return NONE
    for n in ("pieshell.ps.PstreeProcess.__init__",):
        eng.spec.contracts[n] = pstree
    regs = []
    eng.spec.contracts["pieshell.signalio.SignalHandler.__init__"] = lambda e, p, f: (regs.append(e.force(f)), NONE)[1]
    it = eng.force(eng.call(VClass(eng.cls(R + "RunningProcess")), [eng.new_obj(eng.cls(PB)), VInt(pid)]))
    eng.prove(eng.same(eng.getattr(it, "pid"), VInt(pid)), "its process id")
    eng.prove(not log, "making it sends nothing")


@P.target("functions and other items: no signal", spec=spec, functions=[BI + ".suspend", BI + ".restart"])
def _(eng):
    log = kills(eng, eng.fresh_bool("gone"))
    io = VOpaque(eng.fresh_u("iohandler"), label="iohandler", methods={"is_running": VBool(eng.fresh_bool("runs"))})
    cls = [RI, R + "RunningFunction", BB + "RunnningFg", BI][eng.choose(4, "class")]
    it = eng.new_obj(eng.cls(cls), cmd=eng.new_obj(eng.cls(PB)), iohandler=io)
    try:
        eng.call(eng.getattr(it, ["suspend", "restart"][eng.choose(2, "operation")]), [])
    except PyExc as e:
        eng.prove(False, "nothing fails")
    eng.prove(not log, "no signal")


@P.target("a pipeline: every process once, and the pipeline is marked", spec=spec, functions=[RP + ".suspend", RP + ".restart"])
def _(eng):
    log = kills(eng, z3.BoolVal(False))
    w = W(eng).by_contract()
    rp = w.running_pipeline()
    k = eng.choose(2, "operation")
    m = ["suspend", "restart"][k]
    eng.spec.loops["procs"] = Each(w, [m])
    fut, fin = eng.getattr(rp, "finish_future"), eng.getattr(rp, "finished").t
    eng.call(eng.getattr(rp, m), [])
    if not eng.decide(w.n == 0, "no process"):
        eng.prove(eng.extstate.get("passes", 0) == 1, "every process is reached")
    eng.prove(not w.calls and not log, "once, and by way of the process")
    eng.prove(eng.truthy(eng.getattr(rp, "pipeline_suspended")) == (k == 0), "marked")
    eng.prove(eng.getattr(rp, "finished").t == fin, "nothing else changes")
    f = eng.getattr(rp, "finish_future")
    eng.prove(eng.same(f, fut), "nobody is woken")


def handler(eng):
    regs = []
    eng.spec.contracts["pieshell.signalio.SignalHandler.__init__"] = lambda e, p, f: (regs.append(e.force(f)), NONE)[1]
    h = eng.force(eng.call(VClass(eng.cls(SH)), []))
    if eng.get_raw(h, "waited_for") is None:
        raise Unsupported("how the waits in progress are kept")
    return h, regs


@P.target("StopSignalHandler(): for terminal stops; at first nothing is waited for", spec=spec, functions=[SH + ".__init__", SH + ".current_pipeline"])
def _(eng):
    h, regs = handler(eng)
    eng.prove(len(regs) == 1, "registered once")
    f = regs[0]
    v = models.dict_find(eng, models.dict_rep(eng, f), VStr("ssi_signo"))
    eng.prove(v is not None and eng.same(v, VInt(TSTP)), "for the terminal's stop signal")
    eng.prove(isinstance(eng.force(eng.getattr(h, "current_pipeline")), VNone), "nothing is waited for")


@P.target("terminal stop: marks the pipeline waited for, wakes its waiter, nothing else", spec=spec, functions=[SH + ".handle_event", SH + ".current_pipeline"])
def _(eng):
    log = kills(eng, z3.BoolVal(False))
    w = W(eng).by_contract()
    rp = w.running_pipeline()
    h, regs = handler(eng)
    w.others.fields["pipeline_suspended"] = lambda k: VBool(z3.Function("osusp", Z, B)(k))
    w.others.fields["finish_future"] = lambda k: NONE
    n = eng.choose(3, "waited for")     # nothing, only this one, others longer than this one
    older = Chunk(SymSeq(eng, "older", at=lambda i: FRef(w.others, i)))
    segs = [] if n == 0 else [Elems([rp])] if n == 1 else [older, Elems([rp])]
    lst = eng.new_list(Rope(segs))
    eng.set_raw(h, "waited_for", lst)
    ev = eng.new_dict(DictRep(None, [(VStr("ssi_signo"), VInt(TSTP)), (VStr("ssi_pid"), VInt(eng.fresh_int("pid"))), (VStr("ssi_code"), VInt(eng.fresh_int("code")))]))
    try:
        r = eng.call(eng.getattr(h, "handle_event"), [ev])
    except PyExc:
        eng.prove(False, "a stop never fails")
        return
    susp = eng.truthy(eng.getattr(rp, "pipeline_suspended"))
    if n == 0:
        eng.prove(susp == w.susp0, "nothing waited for: nothing is marked")
        if w.fut is not None:
            eng.prove(aio.state(eng, w.fut) == aio.PENDING, "and nobody woken")
    else:
        eng.prove(susp, "the pipeline waited for is marked")
        if w.fut is not None:
            eng.prove(aio.state(eng, w.fut) == aio.RESULT, "its waiter is woken")
            f = eng.force(eng.getattr(rp, "finish_future"))
            eng.prove(not (isinstance(f, Ref) and f.oid == w.fut.oid), "once")
    if n == 2:
        i = eng.fresh_int("i")
        eng.assume(z3.And(i >= 0, i < older.n))
        o = FRef(w.others, i)
        eng.prove(eng.same(eng.getattr(o, "pipeline_suspended"), VBool(z3.Function("osusp", Z, B)(i))), "no other pipeline is marked")
    eng.prove(not w.calls and not log, "the handler itself signals nothing")
    c = eng.content(lst)
    eng.prove(len(c.segs) == len(segs), "the same are waited for")


class Stop(Waiting):
    """other pipelines' waits begin and end while this one sleeps"""

    def suspend(self, eng, fut):
        c = eng.content(self.list)
        mine = [x for s in c.segs if isinstance(s, Elems) for x in s.items]
        other = [s for s in c.segs if isinstance(s, Chunk)]
        if eng.decide(self.w.interactive, "interactive"):
            eng.prove(len(mine) == 1 and isinstance(mine[0], Ref) and mine[0].oid == self.w.rp.oid, "waited for, once")
            eng.prove(eng.same(eng.getattr(self.handler, "current_pipeline"), self.w.rp), "the latest")
        else:
            eng.prove(not mine, "a non-interactive pipeline is not stopped by the terminal")
        eng.prove(len(other) == 1 and other[0].seq is self.before.seq, "the other waits are untouched")
        Waiting.suspend(self, eng, fut)
        self.slept = True
        # meanwhile
        a = Chunk(SymSeq(eng, "older2", at=lambda i: FRef(self.w.others, i)))
        b = Chunk(SymSeq(eng, "newer2", at=lambda i: FRef(self.w.others, i)))
        self.now = [a, b]
        eng.set_content(self.list, Rope([a] + ([Elems([self.w.rp])] if mine else []) + [b]))


@P.target("wait: resumes first, stops if suspended; the terminal stop is for it meanwhile", spec=spec, functions=[RP + ".wait", RP + ".restart", RP + ".suspend"])
def _(eng):
    log = kills(eng, z3.BoolVal(False))
    w = W(eng).by_contract()
    w.running_pipeline()
    q = Waiting(eng, w)
    q.before = q.older
    q.now = [q.older]
    q.slept = False
    eng.extstate["suspend"] = lambda e, f: Stop.suspend(q, e, f)
    q.__class__ = Stop
    eng.spec.loops["procs"] = Each(w, ["restart", "suspend"])
    head = Head(w, q)
    eng.spec.whiles[RP + ".wait"] = head
    rp = w.rp
    exc = None
    try:
        eng.await_(eng.call(eng.getattr(rp, "wait"), []))
    except PyExc as e:
        exc = eng.force(e.value)
    passes = eng.extstate.get("passes", 0)
    susp = exc is not None and isinstance(exc.cls, ClassInfo) and exc.cls.name == "PipelineSuspended"
    if not eng.decide(w.n == 0, "no process"):
        eng.prove(passes == (2 if susp else 1), "every process is resumed; every process is stopped exactly if it was suspended")
    eng.prove(not w.calls and not log, "nothing else is signalled")
    c = eng.content(q.list)
    mine = [x for s in c.segs if isinstance(s, Elems) for x in s.items]
    rest = [s.seq for s in c.segs if isinstance(s, Chunk)]
    eng.prove(not mine, "no longer waited for")
    eng.prove(rest == [s.seq for s in q.now], "the other waits stay")


class Head(c10.Again):
    def __init__(self, w, q):
        c10.Again.__init__(self, w)
        self.q = q

    def havoc_assume(self, L):
        c10.Again.havoc_assume(self, L)
        eng, q = L.eng, self.q
        q.before = Chunk(SymSeq(eng, "older1", at=lambda i: FRef(self.w.others, i)))
        q.now = [q.before]
        mine = eng.decide(self.w.interactive, "interactive")
        eng.set_content(q.list, Rope([q.before] + ([Elems([self.w.rp])] if mine else [])))

    def check(self, L, i):
        c10.Again.check(self, L, i)
        eng, q = L.eng, self.q
        c = eng.content(q.list)
        mine = [x for s in c.segs if isinstance(s, Elems) for x in s.items]
        eng.prove(len(mine) <= 1, "waited for at most once")
        eng.prove(z3.BoolVal(len(mine) == 1) == self.w.interactive, "waited for exactly if interactive")
        eng.prove([s.seq for s in c.segs if isinstance(s, Chunk)] == [s.seq for s in q.now], "other waits as they were")


@P.target("bg: resumes the given, or the last, pipeline; starts nothing", spec=spec, functions=[BB + "BgBuiltin._run"])
def _(eng):
    log = kills(eng, z3.BoolVal(False))
    calls = []
    sp = eng.spec
    for m in ("restart", "suspend", "wait", "handle_finish"):
        sp.contracts[RP + "." + m] = (lambda m: lambda e, p, *a: (calls.append((m, e.force(p))), NONE)[1])(m)
    last, given = eng.alloc(eng.cls(RP)), eng.alloc(eng.cls(RP))
    env = eng.new_obj(eng.cls("pieshell.environ.Environment"), last_pipeline=last)
    k = eng.choose(2, "given")
    arg = eng.new_list(Rope([Elems([VStr("bg")] + ([given] if k else []))]))
    b = eng.new_obj(eng.cls(BB + "BgBuiltin"), _env=env, _arg=arg)
    r = eng.force(eng.call(eng.getattr(b, "_run"), [VOpaque(eng.fresh_u("redirects")), VOpaque(eng.fresh_u("sess"))]))
    eng.prove([c[0] for c in calls] == ["restart"] and calls[0][1].oid == (given if k else last).oid, "resumed, once; nothing else")
    eng.prove(eng.decide(models.iter_rope(eng, r).length() == 0, "empty"), "no process is started")
    eng.prove(not log, "no other signal")


P.mods = ["running"]

"""C11 child status changes."""
from pyvc.lib import *
from pyvc import aio
from pyvc.spec import Property

P = Property("C11", trusted=[
    "os.waitpid(-1, WNOHANG|WUNTRACED|WCONTINUED) returns pending status changes one by one, then pid 0 or ECHILD; "
    "wait statuses have the Linux encoding that os.WIF* decode",
    "asyncio futures; os.WIF*/os.W* as the Linux macros",
    "signalfd.read_siginfo returns pending signals one by one, then fails with EAGAIN",
])
Z, B = z3.IntSort(), z3.BoolSort()
SI = "pieshell.signalio."
EXITED, KILLED, DUMPED, STOPPED, CONTINUED = 1, 2, 3, 5, 6
CHLD = 17
EAGAIN = 11


def macros(s):
    num = lambda eng, v: eng.force(v).t
    def m(name, f, wrap):
        s.ext["os." + name] = lambda eng, v: wrap(z3.simplify(f(num(eng, v))))
    lo = lambda x: x % 128
    core = lambda x: (x / 128) % 2
    hi = lambda x: (x / 256) % 256
    m("WIFEXITED", lambda x: lo(x) == 0, VBool)
    m("WEXITSTATUS", hi, VInt)
    m("WIFSIGNALED", lambda x: z3.And(lo(x) != 0, lo(x) != 127), VBool)
    m("WCOREDUMP", lambda x: core(x) == 1, VBool)
    m("WTERMSIG", lo, VInt)
    m("WIFSTOPPED", lambda x: x % 256 == 127, VBool)
    m("WSTOPSIG", hi, VInt)
    m("WIFCONTINUED", lambda x: x == 0xffff, VBool)
    return s


def meaning(st):
    """(code, status) a wait status means; signal 1..126, core dump or not."""
    lo = st % 128
    code = z3.If(st == 0xffff, I(CONTINUED), z3.If(st % 256 == 127, I(STOPPED), z3.If(
        lo == 0, I(EXITED), z3.If((st / 128) % 2 == 1, I(DUMPED), I(KILLED)))))
    status = z3.If(st == 0xffff, I(0), z3.If(z3.Or(st % 256 == 127, lo == 0), (st / 256) % 256, lo))
    return code, status


def valid(st):
    """the wait statuses the kernel produces"""
    lo, hi = st % 128, (st / 256)
    return z3.And(st >= 0, st <= 0xffff, z3.Or(
        z3.And(st % 256 == 0),                                   # exit status
        z3.And(lo >= 1, lo <= 126, hi == 0),                     # death by signal, core dump or not
        z3.And(st % 256 == 127, hi >= 1, hi <= 126),             # stopped
        st == 0xffff))


class Taken(LoopSpec):
    """every status change taken from the kernel has been reported"""

    def havoc_assume(self, L):
        eng = L.eng
        p = eng.ghost["waited"]
        eng.assume(z3.And(p >= 0, p <= eng.extstate["n"], eng.ghost["reported"] == p))

    def check(self, L, i):
        eng = L.eng
        eng.prove(eng.ghost["reported"] == eng.ghost["waited"], "loop: everything taken was reported")


def field(eng, d, name):
    return eng.force(models.dict_find(eng, models.dict_rep(eng, d), VStr(name)))


@P.target("get_sigchlds: every pending change, once, in order, decoded", spec=lambda: macros(base_spec()), functions=[SI + "signalutils.get_sigchlds"])
def _(eng):
    n = eng.fresh_int("n")
    eng.assume(n >= 0)
    pid, st = z3.Function("pid", Z, Z), z3.Function("st", Z, Z)
    eng.extstate["n"] = n
    eng.ghost["waited"] = I(0)
    eng.ghost["reported"] = I(0)
    eng.spec.whiles["*"] = Taken()

    def waitpid(e, which, flags):
        flags = z3.simplify(e.force(flags).t)
        e.prove(z3.simplify(e.force(which).t) == -1, "any child")
        e.prove(flags == (1 | 2 | 8), "without blocking, stops and continues included")
        p = e.ghost["waited"]
        if e.decide(p < n, "pending"):
            e.assume(z3.And(pid(p) > 0, valid(st(p))))
            e.ghost_set("waited", z3.simplify(p + 1))
            return VTuple([VInt(pid(p)), VInt(st(p))])
        if e.choose(2, "no children") == 1:
            x = e.alloc(e.extclass("builtins.ChildProcessError"))
            e.heap[x.oid].attrs.update({"args": VTuple([]), "errno": VInt(10)})
            raise PyExc(x)
        return VTuple([VInt(0), VInt(0)])
    eng.spec.ext["os.waitpid"] = waitpid
    g = eng.call(eng.module_attr("pieshell.signalio.signalutils", "get_sigchlds"), [])

    def on_yield(d):
        p = eng.ghost["reported"]
        eng.prove(eng.ghost["waited"] == p + 1, "reported as soon as taken, once")
        code, status = meaning(st(p))
        eng.prove(field(eng, d, "ssi_pid").t == pid(p), "its process")
        eng.prove(field(eng, d, "ssi_signo").t == CHLD, "as SIGCHLD")
        eng.prove(field(eng, d, "ssi_code").t == code, "how it changed")
        eng.prove(field(eng, d, "ssi_status").t == status, "exit status or signal")
        eng.ghost_set("reported", z3.simplify(p + 1))
        return NONE
    if isinstance(g, VGen):
        g.run(on_yield)
    else:
        raise Unsupported("get_sigchlds is not a generator")
    eng.prove(eng.ghost["reported"] == n, "all pending changes are reported")


# ------------------------------------------------------------- the managers

FIELDS = ["ssi_signo", "ssi_errno", "ssi_code", "ssi_pid", "ssi_uid", "ssi_fd", "ssi_tid", "ssi_band", "ssi_overrun",
          "ssi_trapno", "ssi_status", "ssi_int", "ssi_ptr", "ssi_utime", "ssi_stime", "ssi_addr"]


class Filters(LoopSpec):
    """all filter items before i agree with the event"""

    def __init__(self, filt, event):
        self.filt, self.event = filt, event

    def agree(self, eng, k):
        return z3.Function("want", z3.StringSort(), Z)(k) == self.event(k)

    def havoc_assume(self, L):
        eng = L.eng
        def f(i):
            k = self.filt.key_at(i)
            eng.assume(z3.Implies(z3.And(i >= 0, i < L.i), self.agree(eng, k)))
        eng.add_fact(self.filt.keyseq, f)

    def check(self, L, i):
        eng = L.eng
        if z3.is_int_value(i) and i.as_long() == 0:
            return
        k = self.filt.key_at(i - 1)
        eng.prove(self.agree(eng, k), "filter: agreed so far")


for which in ("manager_signalfd", "manager_asyncio"):
    @P.target("%s.match_signal: all items of the filter agree" % which, functions=[SI + which + ".SignalManager.match_signal"])
    def _(eng, which=which):
        ev = z3.Function("event", z3.StringSort(), Z)
        want = z3.Function("want", z3.StringSort(), Z)
        info = SymDict(eng, "info", z3.StringSort(), lambda k: VInt(ev(k)), VStr)
        filt = SymDict(eng, "filter", z3.StringSort(), lambda k: VInt(want(k)), VStr)
        filt.add_keyfact(lambda k: z3.Implies(filt._has(k), info.has(k)))
        eng.spec.loops["filter"] = Filters(filt, ev)
        m = eng.alloc(eng.cls(SI + which + ".SignalManager"))
        q = eng.fresh_str("field")
        filt.touch_key(q)
        r = eng.call(eng.getattr(m, "match_signal"), [eng.new_dict(DictRep(info)), eng.new_dict(DictRep(filt))])
        r = eng.truthy(r)
        if eng.decide(r, "matches"):
            eng.prove(z3.Implies(filt.has(q), want(q) == ev(q)), "a match agrees in every field of the filter")
        else:
            w = [k for k in filt._touched.values() if k.sort() == z3.StringSort()]
            eng.prove(z3.Or([z3.And(filt.has(k), want(k) != ev(k)) for k in w]), "a mismatch differs in some field of the filter")


class Table(object):
    """The registered handlers: arbitrarily many, each waiting for a process
    or for a signal."""

    def __init__(self, eng, mod):
        self.eng = eng
        C = eng.cls(SI + "SignalHandler")
        self.kind, self.want = z3.Function("isproc", U, B), z3.Function("wants", U, Z)
        self.handler = {}

        def filt(k):
            f = lambda name: eng.new_dict(DictRep(None, [(VStr(name), VInt(self.want(k)))]))
            return VCase([(self.kind(k), lambda: f("ssi_pid")), (z3.BoolVal(True), lambda: f("ssi_signo"))])

        def handle(e, h, info):
            e.extstate.setdefault("calls", []).append((h, info))
            # a handler may register or deregister handlers
            return NONE
        self.fam = Fam(eng, "handler", C, {"filter": filt})
        eng.spec.contracts[SI + "SignalHandler.handle_event"] = handle
        self.dict = SymDict(eng, "handlers", U, lambda k: FRef(self.fam, k), lambda k: VOpaque(k, label="key"))
        self.ref = eng.new_dict(DictRep(self.dict))

    def matches(self, k, info):
        eng = self.eng
        return z3.If(self.kind(k), field(eng, info, "ssi_pid").t, field(eng, info, "ssi_signo").t) == self.want(k)


class PerHandler(LoopSpec):
    def __init__(self, table):
        self.t = table

    def event(self, eng):
        for L in reversed(eng.loops):
            if L.chunk is not None and L.chunk.tag.startswith("batch"):
                return L.elem
        return eng.extstate["event"]

    def havoc_assume(self, L):
        eng = L.eng
        eng.extstate["calls"] = []
        if L.i is L.n:
            eng.extstate.setdefault("passes", []).append(1)

    def check(self, L, i):
        eng = L.eng
        if z3.is_int_value(i) and i.as_long() == 0:
            return
        calls = eng.extstate.get("calls", [])
        k = self.t.dict.key_at(i - 1)
        ev = self.event(eng)
        if eng.decide(self.t.matches(k, ev), "handler wants it"):
            eng.prove(len(calls) == 1, "its handler gets the change exactly once")
            if len(calls) == 1:
                eng.prove(eng.same(calls[0][0], FRef(self.t.fam, k)), "that handler")
                eng.prove(eng.same(calls[0][1], ev), "gets that change")
        else:
            eng.prove(not calls, "no other handler gets it")
        eng.extstate["calls"] = []


class PerChange(LoopSpec):
    """each change is passed through the whole table of handlers, once"""

    def __init__(self, table):
        self.t = table

    def havoc_assume(self, L):
        L.eng.extstate["passes"] = []
        if L.i is L.n:
            L.eng.extstate.setdefault("batches", []).append(1)

    def check(self, L, i):
        eng = L.eng
        if z3.is_int_value(i) and i.as_long() == 0:
            return
        passes(eng, self.t, 1, "every change of a batch is offered to every handler, once")


def passes(eng, table, n, name):
    got = len(eng.extstate.get("passes", []))
    if not eng.decide(table.dict.n == 0, "no handlers"):
        eng.prove(got == n, name)
    eng.extstate["passes"] = []


def siginfos(eng):
    """the changes get_sigchlds reports"""
    f = {k: z3.Function("b_" + k, Z, Z) for k in FIELDS}
    seq = SymSeq(eng, "batch", at=lambda i: eng.new_dict(DictRep(None, [(VStr(k), VInt(f[k](i))) for k in FIELDS])))
    eng.extstate["batchseq"] = seq
    eng.extstate["taken"] = eng.extstate.get("taken", 0) + 1
    return eng.new_list(Rope([Chunk(seq)]))


def manager(eng, which):
    t = Table(eng, which)
    m = eng.alloc(eng.cls(SI + which + ".SignalManager"))
    for k, v in (("signal_handlers", t.ref), ("fd", VInt(eng.fresh_int("fd"))), ("mask", eng.new_list(Rope([])))):
        eng.set_raw(m, k, v)
    eng.spec.contracts[SI + "signalutils.get_sigchlds"] = siginfos
    eng.spec.loops["handlers"] = PerHandler(t)
    eng.spec.loops["batch"] = PerChange(t)
    return t, m


def settled(eng, t, signo):
    """after one signal notification with number signo"""
    b = len(eng.extstate.get("batches", []))
    if eng.decide(signo == CHLD, "SIGCHLD"):
        eng.prove(eng.extstate.get("taken", 0) == 1, "all pending changes are fetched, once")
        if "batchseq" in eng.extstate and not eng.decide(eng.extstate["batchseq"].n == 0, "no change"):
            eng.prove(b == 1, "and all of them passed on")
        passes(eng, t, 0, "nothing else is passed on")
    else:
        eng.prove(b == 0 and not eng.extstate.get("taken"), "only SIGCHLD concerns children")
        passes(eng, t, 1, "the signal is offered to every handler, once")


@P.target("manager_asyncio: one notification, all changes, the right handlers", functions=[SI + "manager_asyncio.SignalManager.handle_event"])
def _(eng):
    t, m = manager(eng, "manager_asyncio")
    signo = eng.fresh_int("signo")
    eng.assume(z3.And(signo > 0, signo < 65))
    eng.extstate["event"] = eng.new_dict(DictRep(None, [(VStr(k), VInt(signo if k == "ssi_signo" else 0)) for k in FIELDS]))
    PH = eng.spec.loops["handlers"]

    # the event passed on is a new dictionary: compare its fields
    def check(L, i, orig=PH.check):
        calls = eng.extstate.get("calls", [])
        if calls and not any(l.chunk is not None and l.chunk.tag.startswith("batch") for l in eng.loops):
            for h, info in calls:
                for k in FIELDS:
                    eng.prove(field(eng, info, k).t == field(eng, eng.extstate["event"], k).t, "the signal's own number, no sender")
            eng.extstate["calls"] = [(h, eng.extstate["event"]) for h, info in calls]
        orig(L, i)
    PH.check = check
    eng.call(eng.getattr(m, "handle_event"), [VInt(signo)])
    settled(eng, t, signo)


class PerRead(LoopSpec):
    """everything read so far has been settled"""

    def __init__(self, t):
        self.t = t

    def havoc_assume(self, L):
        eng = L.eng
        eng.extstate.update({"passes": [], "batches": [], "taken": 0, "reads": []})
        eng.extstate.pop("batchseq", None)

    def check(self, L, i):
        eng = L.eng
        if z3.is_int_value(i) and i.as_long() == 0:
            return
        r = eng.extstate["reads"]
        eng.prove(len(r) == 1, "one signal at a time")
        settled(eng, self.t, r[0])


@P.target("manager_signalfd: all pending signals, all changes, the right handlers", functions=[SI + "manager_signalfd.SignalManager.handle_event"])
def _(eng):
    t, m = manager(eng, "manager_signalfd")
    eng.extstate["reads"] = []
    eng.ghost["end"] = I(0)
    eng.spec.whiles["*"] = PerRead(t)

    def read(e, fd):
        e.prove(e.force(fd).t == e.get_raw(m, "fd").t, "reads its own descriptor")
        k = e.choose(3, "read_siginfo")
        if k:
            x = e.alloc(e.extclass("builtins.OSError"))
            n = e.fresh_int("errno")
            e.assume(n == EAGAIN if k == 1 else z3.And(n > 0, n != EAGAIN))
            e.heap[x.oid].attrs.update({"args": VTuple([]), "errno": VInt(n)})
            e.extstate["ended"] = (k, x)
            raise PyExc(x)
        vals = {f: e.fresh_int(f) for f in FIELDS}
        e.extstate["reads"].append(vals["ssi_signo"])
        e.extstate["event"] = e.new_dict(DictRep(None, [(VStr(f), VInt(v)) for f, v in vals.items()]))
        o = e.alloc(e.extclass("signalfd.siginfo"))
        for f, v in vals.items():
            e.heap[o.oid].attrs[f] = VInt(v)
        return o
    eng.spec.ext["signalfd.read_siginfo"] = read
    eng.spec.ext["builtins.dir"] = lambda e, o: e.new_list(Rope([Elems([VStr(f) for f in FIELDS])]))
    PH = eng.spec.loops["handlers"]

    def check(L, i, orig=PH.check):
        calls = eng.extstate.get("calls", [])
        if calls and not any(l.chunk is not None and l.chunk.tag.startswith("batch") for l in eng.loops):
            for h, info in calls:
                for k in FIELDS:
                    eng.prove(field(eng, info, k).t == field(eng, eng.extstate["event"], k).t, "the fields of the signal read")
            eng.extstate["calls"] = [(h, eng.extstate["event"]) for h, info in calls]
        orig(L, i)
    PH.check = check
    try:
        eng.call(eng.getattr(m, "handle_event"), [VInt(eng.fresh_int("event"))])
    except PyExc as e:
        k, x = eng.extstate.get("ended", (0, None))
        eng.prove(k == 2 and eng.same(e.value, x), "only a failing read is an error")
        return
    eng.prove(eng.extstate.get("ended", (0,))[0] == 1, "reads until nothing is pending")


# ---------------------------------------------------- handlers and the table

@P.target("ProcessSignalHandler: records every change, ends exactly once", spec=lambda: aio.install(base_spec()), functions=[
    SI + "ProcessSignalHandler.__init__", SI + "ProcessSignalHandler.handle_event", SI + "ProcessSignalHandler.is_running", SI + "SignalHandler.__init__", SI + "SignalHandler.destroy"])
def _(eng):
    log = []
    mgr = VOpaque(eng.fresh_u("mgr"), attrs=["register", "deregister"], methods={
        "register": lambda e, s, h: (log.append(("register", h)), NONE)[1],
        "deregister": lambda e, s, h: (log.append(("deregister", h)), NONE)[1]})
    for w in ("manager_signalfd", "manager_asyncio"):
        eng.spec.contracts[SI + w + ".get_signal_manager"] = lambda e: mgr
    pid = eng.fresh_int("pid")
    eng.assume(pid > 0)
    h = eng.call(VClass(eng.cls(SI + "ProcessSignalHandler")), [VInt(pid)])
    eng.prove(len(log) == 1 and log[0][0] == "register" and eng.same(log[0][1], h) is not False, "registered, once")
    filt = eng.getattr(h, "filter")
    rep = models.dict_rep(eng, filt)
    eng.prove(models.dict_len(eng, rep) == 1 and eng.eq(models.dict_find(eng, rep, VStr("ssi_pid")) or NONE, VInt(pid)), "for its own process only")
    eng.prove(eng.truthy(eng.getattr(h, "is_running")), "running at first")
    # any number of changes before: it is still running; last_event is arbitrary
    if eng.choose(2, "changed before") == 1:
        eng.set_raw(h, "last_event", VOpaque(eng.fresh_u("previous")))
    code = eng.fresh_int("code")
    st = eng.fresh_int("status")
    eng.assume(z3.And(code >= 1, code <= 6))
    ev = eng.new_dict(DictRep(None, [(VStr("ssi_pid"), VInt(pid)), (VStr("ssi_code"), VInt(code)), (VStr("ssi_status"), VInt(st))]))
    eng.call(eng.getattr(h, "handle_event"), [ev])
    eng.prove(eng.same(eng.getattr(h, "last_event"), ev), "the latest change is remembered")
    ended = z3.Or(code == EXITED, code == KILLED, code == DUMPED)
    eng.prove(eng.truthy(eng.getattr(h, "is_running")) == z3.Not(ended), "ended exactly if it exited or was killed")
    if eng.decide(ended, "ended"):
        eng.prove(len(log) == 2 and log[1][0] == "deregister" and eng.same(log[1][1], h), "then it is taken out of the table, once")
        eng.prove(eng.same(aio.get(eng, eng.getattr(h, "done_future")), ev), "with that final status")
        eng.prove(eng.same(eng.await_(eng.call(eng.getattr(h, "wait"), [])), ev), "which waiting for it returns")
        eng.prove(eng.same(eng.getattr(h, "exception"), NONE), "and no exception")
    else:
        eng.prove(len(log) == 1, "a process that has not ended stays in the table")


for which in ("manager_signalfd", "manager_asyncio"):
    @P.target("%s.register/deregister: exactly that handler" % which, functions=[
        SI + which + ".SignalManager.register", SI + which + ".SignalManager.deregister", SI + which + ".SignalManager.filter_to_key"])
    def _(eng, which=which):
        C = eng.cls(SI + "SignalHandler")
        fam = Fam(eng, "old", C, {})
        vf = z3.Function("tab", Val, Z)
        d = SymDict(eng, "tab", Val, lambda k: FRef(fam, vf(k)), VVal)
        m = eng.alloc(eng.cls(SI + which + ".SignalManager"))
        tab = eng.new_dict(DictRep(d))
        eng.set_raw(m, "signal_handlers", tab)
        p = eng.fresh_int("p")
        name = "ssi_pid" if eng.choose(2, "what") == 0 else "ssi_signo"

        def handler(name, v):
            h = eng.alloc(C)
            eng.set_raw(h, "filter", eng.new_dict(DictRep(None, [(VStr(name), VInt(v))])))
            return h
        h = handler(name, p)
        key = VTuple([VTuple([VStr(name), VInt(p)])])
        q = VVal(z3.Const("otherkey", Val))
        eng.assume(q.t != eng.enc(key))
        eng.call(eng.getattr(m, "register"), [h])
        rep = models.dict_rep(eng, eng.getattr(m, "signal_handlers"))
        # found under the key of any equal filter
        h2 = handler(name, p)
        k2 = eng.call(eng.getattr(m, "filter_to_key"), [eng.getattr(h2, "filter")])
        got = models.dict_find(eng, rep, k2)
        eng.prove(got is not None and eng.same(got, h), "a registered handler is in the table")
        eng.prove(models.dict_has(eng, rep, q) == d.has(q.t), "no other entry appears or disappears")
        if eng.decide(d.has(q.t), "other"):
            eng.prove(eng.same(models.dict_find(eng, rep, q), d.value(q.t)), "no other entry changes")
        p3 = eng.fresh_int("p3")
        eng.assume(p3 != p)
        k3 = eng.call(eng.getattr(m, "filter_to_key"), [eng.getattr(handler(name, p3), "filter")])
        eng.prove(z3.Not(eng.eq(k2, k3)), "different processes have different keys")
        eng.call(eng.getattr(m, "deregister"), [h])
        rep = models.dict_rep(eng, eng.getattr(m, "signal_handlers"))
        eng.prove(models.dict_find(eng, rep, k2) is None, "a deregistered handler is not in the table")
        eng.prove(models.dict_has(eng, rep, q) == d.has(q.t), "others stay")


@P.target("manager_asyncio.__init__: every signal under its own number", spec=lambda: aio.install(base_spec()), functions=[SI + "manager_asyncio.SignalManager.__init__"])
def _(eng):
    a, b, c = [eng.fresh_int(x) for x in "abc"]
    got = []
    eng.spec.contracts[SI + "manager_asyncio.SignalManager.handle_event"] = lambda e, s, n: (got.append(e.force(n).t), NONE)[1]
    n = 1 + eng.choose(3, "signals")
    sigs = [a, b, c][:n]
    eng.call(VClass(eng.cls(SI + "manager_asyncio.SignalManager")), [eng.new_list(Rope([Elems([VInt(x) for x in sigs])]))])
    regs = [r for r in aio.take(eng, "io") if r[0] == "add_signal_handler"]
    eng.prove(len(regs) == len(sigs), "one handler per signal")
    for r, x in zip(regs, sigs):
        eng.prove(eng.force(r[1]).t == x, "for that signal")
        del got[:]
        eng.call(r[2], list(r[3:]))
        eng.prove(len(got) == 1 and got[0] == x, "dispatched under its own number")


@P.target("manager_asyncio.__init__: children and terminal stops by default", spec=lambda: aio.install(base_spec()), functions=[SI + "manager_asyncio.SignalManager.__init__"])
def _(eng):
    eng.call(VClass(eng.cls(SI + "manager_asyncio.SignalManager")), [])
    regs = [z3.simplify(eng.force(r[1]).t).as_long() for r in aio.take(eng, "io") if r[0] == "add_signal_handler"]
    eng.prove(sorted(regs) == [17, 20], "SIGCHLD and SIGTSTP")


@P.target("manager_signalfd.__init__: children and terminal stops, blocked and read", spec=lambda: aio.install(base_spec()), functions=[SI + "manager_signalfd.SignalManager.__init__"])
def _(eng):
    log = []

    def mask(e, m):
        return sorted(z3.simplify(e.force(x).t).as_long() for x in models.iter_rope(e, m).concrete())
    fd = eng.fresh_int("sfd")
    eng.spec.ext["signalfd.signalfd"] = lambda e, f, m, fl: (log.append(("signalfd", mask(e, m), z3.simplify(e.force(f).t).as_long())), VInt(fd))[1]
    eng.spec.ext["signalfd.sigprocmask"] = lambda e, how, m: (log.append(("block", mask(e, m), how)), NONE)[1]
    eng.extstate["readable"] = True     # nobody else reads it
    m = eng.call(VClass(eng.cls(SI + "manager_signalfd.SignalManager")), [])
    eng.prove(sorted(x[0] for x in log) == ["block", "signalfd"], "both")
    eng.prove(all(x[1] == [17, 20] for x in log), "SIGCHLD and SIGTSTP")
    io = aio.take(eng, "io")
    eng.prove(len(io) == 1 and io[0][0] == "add_reader" and eng.force(io[0][1]).t == fd, "readable notifications are handled")
    calls = []
    eng.spec.contracts[SI + "manager_signalfd.SignalManager.handle_event"] = lambda e, s, n: (calls.append(s), NONE)[1]
    eng.call(io[0][2], list(io[0][3:]))
    eng.prove(len(calls) == 1 and eng.same(calls[0], m), "by handle_event")

"""C09 output of functions.

Ghost state: `written`, the bytes the descriptor took.  Invariant: `written`
followed by `pending` is the framed concatenation of the items taken, but for
the one being awaited; items are taken only when nothing is pending, and only
one is awaited at a time."""
from pyvc.lib import *
from pyvc import aio
from pyvc.spec import Property

P = Property("C09", trusted=[
    "os.write takes some first part of the data, or raises (BlockingIOError: nothing was taken)",
    "the event loop runs a task between awaits without interruption and calls the callback while the writer is registered",
    "asyncio futures (pyvc/aio.py); str and str.encode as functions",
    "KeyboardInterrupt and SystemExit end the interpreter, not the stage",
])
IO = "pieshell.iterio."
OH, LO, BH = IO + "OutputHandler", IO + "LineOutputHandler", IO + "IOHandler"
FN = "pieshell.pipeline.function.Function"
SS = z3.StringSort()
NL = S("\n")


def spec():
    s = base_spec()
    aio.install(s)
    return s


class O(object):
    """An output handler in an arbitrary state."""

    def __init__(self, eng, line, begun=True):
        self.eng, self.line = eng, line
        self.fd, self.bor = eng.fresh_int("fd"), eng.fresh_bool("borrowed")
        self.closed, self.writes, self.werr = [], [], None
        self.item = z3.Function(eng.fresh_name("item"), z3.IntSort(), SS)
        self.isnone = z3.Function(eng.fresh_name("isnone"), z3.IntSort(), z3.BoolSort())
        eng.ghost["taken"] = eng.fresh_int("taken")
        eng.ghost["written"] = self.w0 = eng.fresh_str("written")
        self.t0 = eng.ghost["taken"]
        self.ends = None
        self.asked = 0
        self.exc = None
        self.it = VOpaque(eng.fresh_u("iter"), attrs=["__aiter__", "__anext__"], label="iter",
                          methods={"__aiter__": lambda e, s: s, "__anext__": lambda e, s: VCoro(self.next, "anext")})
        sp = eng.spec
        sp.ext["os.write"] = self.write
        sp.ext["os.close"] = lambda e, fd: (self.closed.append(e.force(fd)), NONE)[1]
        h = self.h = eng.force(eng.call(VClass(eng.cls(LO if line else OH)), [VInt(self.fd), self.it]))
        aio.take(eng, "io")
        aio.take(eng, "tasks")
        eng.set_raw(h, "borrowed", VBool(self.bor))
        self.p0 = S("")
        if eng.choose(2, "something pending") == 1:
            self.p0 = eng.fresh_str("pending")
            eng.assume(self.p0 != S(""))
        eng.set_raw(h, "pending", VBytes(self.p0))
        self.fut = eng.force(eng.get_raw(h, "done_future"))
        self.st = ["idle", "awaiting", "done"][eng.choose(3, "state")]
        self.lock = eng.fresh_bool("lock")
        if self.st == "idle":
            eng.assume(z3.Not(self.lock))
        elif self.st == "awaiting":
            eng.assume(self.lock)
            eng.assume(self.p0 == S(""))
        else:
            # the end was reached, with or without an exception
            self.set(destroyed=VBool(True), enabled=VBool(False))
            eng.set_raw(self.fut, "$state", VInt(aio.RESULT if eng.choose(2, "failed") == 0 else aio.EXC))
        eng.set_raw(h, "recursion_lock", VBool(self.lock))

    def set(self, **kw):
        for k, v in kw.items():
            self.eng.set_raw(self.h, k, v)

    def get(self, a):
        return self.eng.force(self.eng.get_raw(self.h, a))

    def pending(self):
        p = self.get("pending")
        return p.t if isinstance(p, VBytes) else None

    def next(self):
        """The next item is asked for; meanwhile events may arrive."""
        e = self.eng
        self.asked += 1
        e.prove(e.truthy(self.get("recursion_lock")), "an item is awaited under the lock")
        e.prove(z3.Not(e.truthy(self.get("destroyed"))), "no item is taken after the end")
        self.ends = e.choose(4, "item, end, exception or cancelled")
        if self.ends == 1:
            e.raise_py("StopAsyncIteration")
        if self.ends:
            self.exc = e.alloc(e.extclass("builtins.KeyError" if self.ends == 2 else "asyncio.CancelledError"))
            raise PyExc(self.exc)
        t = e.ghost["taken"]
        e.ghost_set("taken", z3.simplify(t + 1))
        return VCase([(self.isnone(t), lambda: NONE), (z3.BoolVal(True), lambda: VBytes(self.item(t)))])

    def write(self, e, fd, data):
        data = e.force(data)
        e.prove(e.eq(e.force(fd), VInt(self.fd)), "writes to its own descriptor")
        e.prove(isinstance(data, VBytes), "writes bytes")
        e.prove(z3.Not(e.truthy(self.get("destroyed"))), "nothing is written after the end")
        self.writes.append(1)
        k = e.choose(3, "write takes a part, blocks or fails")
        if k == 1:
            e.raise_py("BlockingIOError")
        if k == 2:
            self.werr = e.alloc(e.extclass("builtins.BrokenPipeError"))
            raise PyExc(self.werr)
        a, b = e.fresh_str("taken_part"), e.fresh_str("rest")
        e.assume(data.t == z3.Concat(a, b))
        e.ghost_set("written", z3.Concat(e.ghost["written"], a))
        return VInt(z3.Length(a))

    def due(self):
        """What must have been written or be pending now."""
        e = self.eng
        d = z3.Concat(self.w0, self.p0)
        if self.asked and self.ends == 0:
            t = self.t0
            if not e.decide(self.isnone(t), "item is None"):
                d = z3.Concat(d, self.item(t), NL) if self.line else z3.Concat(d, self.item(t))
        return d


def step(eng, line):
    o = O(eng, line)
    eng.await_(eng.call(eng.getattr(o.h, "send_output"), []))
    io = [x for x in aio.take(eng, "io") if x[0] == "remove_writer"]
    st = aio.state(eng, o.fut)
    if o.st != "idle":
        eng.prove(not o.asked and not o.writes and not o.closed and not io, "an event while an item is awaited, or after the end, does nothing")
        eng.prove(o.pending() is not None and o.pending() == o.p0, "an event while an item is awaited, or after the end, does nothing")
        eng.prove(eng.truthy(o.get("recursion_lock")) == o.lock, "an event while an item is awaited, or after the end, leaves the lock")
        return
    if o.p0.eq(S("")):
        eng.prove(o.asked == 1, "one item is taken")
    else:
        eng.prove(o.asked == 0, "no item is taken while the last one is not written")
    if o.werr is None:
        eng.prove(o.pending() is not None and z3.Concat(eng.ghost["written"], o.pending()) == o.due(),
                  "written and pending are all items so far, in order, once" + (", each followed by one newline" if line else ""))
    end = o.ends if o.asked else 0
    if o.werr is not None or end:
        eng.prove(eng.truthy(o.get("destroyed")), "the end closes the output")
        eng.prove(len(io) == 1 and eng.eq(eng.force(io[0][1]), VInt(o.fd)), "no more events")
        if eng.decide(o.bor, "borrowed"):
            eng.prove(not o.closed, "a lent descriptor is not closed")
        else:
            eng.prove(len(o.closed) == 1 and eng.eq(o.closed[0], VInt(o.fd)), "the descriptor is closed once")
        if o.werr is not None or end >= 2:
            eng.prove(st == aio.EXC, "the stage has failed")
            eng.prove(eng.same(eng.get_raw(o.fut, "$value"), o.werr or o.exc), "with exactly that exception")
        else:
            eng.prove(st == aio.RESULT, "the stage is complete")
            eng.prove(o.p0 == S(""), "and everything has been written")
    else:
        eng.prove(st == aio.PENDING, "the stage goes on")
        eng.prove(not o.closed and not io and z3.Not(eng.truthy(o.get("destroyed"))), "the output stays open")
        eng.prove(z3.Not(eng.truthy(o.get("recursion_lock"))), "the next event takes the next item")


@P.target("LineOutputHandler.send_output(): the next item, its newline, once; the end", spec=spec,
          functions=[LO + ".send_output", OH + ".write", OH + ".destroy", BH + ".destroy", BH + ".disable"])
def _(eng):
    step(eng, True)


@P.target("OutputHandler.send_output(): the next item, once; the end", spec=spec,
          functions=[OH + ".send_output", OH + ".write", OH + ".destroy", BH + ".destroy", BH + ".disable"])
def _(eng):
    step(eng, False)


@P.target("destroy(): closed and completed once, the first outcome stays", spec=spec, functions=[OH + ".destroy", BH + ".destroy"])
def _(eng):
    o = O(eng, eng.choose(2, "line") == 1)
    st0, v0 = aio.state(eng, o.fut), eng.get_raw(o.fut, "$value")
    exc = eng.alloc(eng.extclass("builtins.KeyError"))
    with_exc = eng.choose(2, "with an exception") == 1
    eng.call(eng.getattr(o.h, "destroy"), [exc] if with_exc else [])
    if o.st == "done":
        eng.prove(not o.closed, "not closed twice")
        eng.prove(aio.state(eng, o.fut) == st0 and eng.same(eng.get_raw(o.fut, "$value"), v0), "the outcome stays")
        return
    eng.prove(aio.state(eng, o.fut) == (aio.EXC if with_exc else aio.RESULT), "outcome")
    if with_exc:
        eng.prove(eng.same(eng.get_raw(o.fut, "$value"), exc), "the exception")
    n = len(o.closed)
    eng.call(eng.getattr(o.h, "destroy"), [])
    eng.prove(len(o.closed) == n, "not closed twice")
    eng.prove(n == 0 or z3.Not(o.bor), "a lent descriptor is not closed")


@P.target("handle_event(): each event sends output once", spec=spec, functions=[OH + ".handle_event", BH + ".enable", BH + ".__init__"])
def _(eng):
    line = eng.choose(2, "lines") == 1
    cls = eng.cls(LO if line else OH)
    n = []

    def send(e, s):
        def run():
            n.append(s)
            return NONE
        return VCoro(run, "send_output")
    eng.spec.contracts[(LO if line else OH) + ".send_output"] = send
    fd = VInt(eng.fresh_int("fd"))
    it = VOpaque(eng.fresh_u("iter"), attrs=["__aiter__", "__anext__"], label="iter")
    h = eng.force(eng.call(VClass(cls), [fd, it]))
    io = aio.take(eng, "io")
    eng.prove(len(io) == 1 and io[0][0] == "add_writer", "registered for writing, once")
    eng.prove(eng.eq(eng.force(io[0][1]), fd), "its descriptor")
    eng.prove(aio.state(eng, eng.force(eng.get_raw(h, "done_future"))) == aio.PENDING, "not complete")
    eng.prove(z3.Not(eng.truthy(eng.get_raw(h, "recursion_lock"))), "nothing awaited")
    eng.prove(eng.same(eng.get_raw(h, "iter"), it), "its items")
    eng.call(io[0][2], list(io[0][3:]))
    tasks = aio.take(eng, "tasks")
    eng.prove(not n and len(tasks) == 1, "sending is one task of its own")
    eng.await_(tasks[0])
    eng.prove(len(n) == 1 and eng.same(n[0], h), "each event sends once")


@P.target("get_iter(): any iterator or iterable, its iteration begun once", spec=spec, functions=[OH + ".get_iter"])
def _(eng):
    k = eng.choose(4, "kind")
    begun = []
    nxt = VOpaque(eng.fresh_u("iterator"), attrs=["__aiter__", "__anext__"], label="iterator", methods={"__aiter__": lambda e, s: s})

    def aiter(e, s):
        begun.append(1)
        return nxt if k == 1 else s
    attrs = [["__aiter__", "__anext__"], ["__aiter__"], ["__anext__"], ["__iter__"]][k]
    it = VOpaque(eng.fresh_u("iter"), attrs=attrs, label="iter", methods={"__aiter__": aiter} if k < 2 else {})
    h = eng.force(eng.call(VClass(eng.cls(OH)), [VInt(eng.fresh_int("fd")), it]))
    got = []
    eng.spec.contracts["pieshell.utils.asyncutils.itertoasync.__init__"] = lambda e, s, x: (got.append(x), NONE)[1]
    eng.spec.contracts["pieshell.utils.asyncutils.itertoasync.__aiter__"] = lambda e, s: (begun.append(1), s)[1]
    r = None
    for j in range(2):
        r0, r = r, eng.force(eng.call(eng.getattr(h, "get_iter"), []))
        if j:
            eng.prove(eng.same(r, r0), "the same iterator for every item")
    eng.prove(len(begun) == (0 if k == 2 else 1), "iteration begun once")
    if k < 3:
        eng.prove(eng.same(r, nxt if k == 1 else it), "the iterator of the items")
    else:
        eng.prove(isinstance(r, Ref) and len(got) == 1 and eng.same(got[0], it), "the items as an asynchronous iterator")


@P.target("the outcome: running until complete, then the exception or none", spec=spec,
          functions=[OH + ".is_running", OH + ".exception", OH + ".wait", "pieshell.pipeline.running.RunningFunction.is_failed",
                     "pieshell.pipeline.running.RunningItem.is_running"])
def _(eng):
    o = O(eng, True)
    rf = eng.new_obj(eng.cls("pieshell.pipeline.running.RunningFunction"), iohandler=o.h)
    if o.st == "done" and eng.decide(aio.state(eng, o.fut) == aio.EXC, "failed"):
        exc = eng.alloc(eng.extclass("builtins.KeyError"))
        eng.set_raw(o.fut, "$value", exc)
    else:
        exc = NONE
    done = o.st == "done"
    eng.prove(eng.truthy(eng.getattr(o.h, "is_running")) if not done else z3.Not(eng.truthy(eng.getattr(o.h, "is_running"))), "running until the end")
    eng.prove(eng.same(eng.getattr(o.h, "exception"), exc), "the exception, if it failed")
    r = eng.truthy(eng.getattr(rf, "is_running"))
    eng.prove(z3.Not(r) if done else r, "the process runs until the end")
    f = eng.truthy(eng.getattr(rf, "is_failed"))
    eng.prove(z3.Not(f) if exc is NONE else f, "the process has failed exactly with an exception")
    if done:
        try:
            eng.await_(eng.call(eng.getattr(o.h, "wait"), []))
            eng.prove(exc is NONE, "waiting passes the exception on")
        except PyExc as e:
            eng.prove(eng.same(e.value, exc), "waiting passes the exception on")


# ------------------------------------------------------------- conversion

RS, RD = "pieshell.redir.Redirects", "pieshell.redir.Redirect"


def run_function(eng, thing, arg=(), kw=None):
    """Function._run: the items given to the output handler, what was opened."""
    log = []
    t = eng.new_obj(eng.cls(RS), redirects=eng.new_dict(DictRep(None, [])))
    mk = lambda n: eng.new_obj(eng.cls(RD), fd=VInt(n), source=VInt(9), flag=VInt(0), mode=VInt(0), pipe=NONE, borrowed=VBool(False))
    sin, sout = mk(0), mk(1)
    made = eng.new_obj(eng.cls(RS), redirects=eng.new_dict(DictRep(None, [(VInt(0), sin), (VInt(1), sout), (VInt(2), mk(2))])))
    fds = {sin.oid: VInt(eng.fresh_int("infd")), sout.oid: VInt(eng.fresh_int("outfd"))}
    sp = eng.spec

    def mkpipes(e, s):
        e.prove(e.same(s, t), "pipes made for its own descriptors")
        log.append("pipes")
        return made

    def op(e, s, borrow=VBool(True)):
        e.prove(z3.Not(e.truthy(borrow)), "opened for the function alone")
        log.append(("open", s.oid))
        return fds[s.oid]
    sp.contracts[RS + ".make_pipes"] = mkpipes
    sp.contracts[RD + ".open"] = op
    sp.contracts[RS + ".close_source_fds"] = lambda e, s: (e.prove(e.same(s, made), "its own sources"), log.append("close"), NONE)[2]
    ins, outs = [], []
    sp.contracts[IO + "LineInputHandler.__init__"] = lambda e, s, *a, **k: (ins.append((s, a, k)), NONE)[1]
    sp.contracts[IO + "InputHandler.__init__"] = lambda e, s, *a, **k: (ins.append((s, a, k)), NONE)[1]
    sp.contracts[OH + ".__init__"] = lambda e, s, *a, **k: (e.prove(s.cls is e.cls(LO), "written as lines"), outs.append((s, a, k)), NONE)[2]
    sp.contracts[FN + "._repr"] = lambda e, s: VStr(e.fresh_str("repr"))
    sp.contracts["pieshell.pipeline.base.Pipeline.__repr__"] = lambda e, s: VStr(e.fresh_str("repr"))
    runs = []
    sp.contracts["pieshell.pipeline.running.RunningItem.__init__"] = lambda e, s, cmd, ioh: (runs.append((s, cmd, ioh)), NONE)[1]
    env = eng.new_obj(eng.cls("pieshell.environ.Environment"))
    f = eng.new_obj(eng.cls(FN), _env=env, function=thing, _arg=VTuple(list(arg)), _kw=eng.new_dict(DictRep(None, list((kw or {}).items()))), _started=VBool(False))
    res = eng.call(eng.getattr(f, "_run"), [t, eng.new_dict(DictRep(None, []))])
    return f, made, fds, sin, sout, ins, outs, runs, log, res


def wiring(eng, x, called):
    f, made, fds, sin, sout, ins, outs, runs, log, res = x
    eng.prove(len(outs) == 1, "one output")
    s, a, k = outs[0]
    eng.prove(eng.eq(eng.force(a[0] if a else k.get("fd")), fds[sout.oid]), "on its standard output")
    it = a[1] if len(a) > 1 else k.get("iter")
    eng.prove(len(runs) == 1 and eng.same(runs[0][1], f) and eng.same(runs[0][2], s), "the stage is the one of this function and output")
    ps = models.iter_rope(eng, res).concrete()
    eng.prove(len(ps) == 1 and eng.same(ps[0], runs[0][0]), "one process")
    eng.prove(eng.same(eng.get_raw(f, "_redirects"), made), "its descriptors")
    eng.prove(log.count("close") == 1 and log[-1] == "close" and log[0] == "pipes", "sources are closed after they have been opened")
    eng.prove(("open", sout.oid) in log and log.count(("open", sout.oid)) == 1, "output opened once")
    if called:
        eng.prove(len(ins) == 1 and log.count(("open", sin.oid)) == 1, "one input, opened once")
        s, a, k = ins[0]
        eng.prove(eng.eq(eng.force(a[0] if a else k.get("fd")), fds[sin.oid]), "on its standard input")
    else:
        eng.prove(not ins and ("open", sin.oid) not in log, "no input")
    return it


def convert_checks(eng, it, src, nones=True):
    """Taking the next item of `it` takes one of the source, converted."""
    it = eng.force(eng.call(eng.getattr(it, "__aiter__"), []))
    for j in range(2):
        p = z3.simplify(src.pos)
        try:
            v = eng.force(eng.await_(eng.call(eng.getattr(it, "__anext__"), [])))
        except PyExc as e:
            if src.conv:
                eng.prove(eng.same(e.value, src.conv[-1]), "only a failing conversion fails")
                return
            eng.prove(p >= src.n, "no item is lost")
            if src.fails:
                eng.prove(eng.same(e.value, src.exc), "an exception of the source is passed on")
            else:
                eng.prove(is_exc(eng, e, "StopAsyncIteration"), "ends with the source")
            return
        eng.prove(z3.And(p < src.n, src.pos == p + 1), "one item for one item")
        eng.prove(src.converted(p, v), "completely converted")


class Items(Source):
    """A source of None, bytes, strings and other values."""

    def __init__(self, eng, **kw):
        Source.__init__(self, eng, **kw)
        Z = z3.IntSort()
        f = lambda n, s: z3.Function(eng.fresh_name(n), Z, s)
        self.k, self.b, self.s, self.o = f("kind", Z), f("b", SS), f("s", SS), f("o", U)
        self.text = z3.Function(eng.fresh_name("text"), U, SS)
        self.conv = []

    def item(self, i):
        def other():
            def text(e, s):
                if e.choose(2, "str() fails") == 1:
                    self.conv.append(e.alloc(e.extclass("builtins.ValueError")))
                    raise PyExc(self.conv[-1])
                return VStr(self.text(self.o(i)))
            return VOpaque(self.o(i), types=["?", "-str", "-bytes", "-types.CoroutineType"], attrs=["?"], label="value", methods={"__str__": text})
        return VCase([(self.k(i) == 0, lambda: NONE), (self.k(i) == 1, lambda: VBytes(self.b(i))),
                      (self.k(i) == 2, lambda: VStr(self.s(i))), (z3.BoolVal(True), other)])

    def converted(self, p, v):
        e = self.eng
        if e.decide(self.k(p) == 0, "None"):
            return isinstance(v, VNone)
        if not isinstance(v, VBytes):
            return False
        if e.decide(self.k(p) == 1, "bytes"):
            return v.t == self.b(p)
        enc = models._enc
        if e.decide(self.k(p) == 2, "str"):
            return v.t == enc(self.s(p))
        return v.t == enc(self.text(self.o(p)))


@P.target("Function._run: an iterator or iterable is written item by item, converted", spec=spec,
          functions=[FN + "._run", "pieshell.utils.asyncutils.itertoasync.__anext__", "pieshell.utils.asyncutils.asyncmap.__anext__"])
def _(eng):
    k = eng.choose(2, "asynchronous")
    src = Items(eng, is_async=k == 1, coros=k == 0)
    it = wiring(eng, run_function(eng, src.it), False)
    convert_checks(eng, it, src)


@P.target("Function._run: a function is called once with its input and arguments, its items written converted", spec=spec,
          functions=[FN + "._run"])
def _(eng):
    k = eng.choose(4, "returns")
    src = Items(eng, is_async=k == 1, coros=k == 0)
    calls = []
    val = None
    if k == 2:        # a plain value
        val = VOpaque(eng.fresh_u("plain"), label="plain", methods={"__str__": lambda e, s: VStr(txt)}) if eng.choose(2, "None") else NONE
        txt = eng.fresh_str("text")
    elif k == 3:
        val = VStr(eng.fresh_str("result"))
    ran = []

    def fn(e, s, *a, **kw):
        calls.append((a, kw))
        if k < 2:
            return src.it
        if k == 2:
            return val

        def run():
            ran.append(1)
            return val
        return VCoro(run, "coroutine")
    x, y = VOpaque(eng.fresh_u("x"), label="x"), VOpaque(eng.fresh_u("y"), label="y")
    typ = ["types.FunctionType", "types.MethodType"][eng.choose(2, "method")]
    f = VOpaque(eng.fresh_u("function"), types=[typ], label="function", attrs=["__name__"], methods={"__call__": fn})
    r = run_function(eng, f, [x], {VStr("key"): y})
    it = wiring(eng, r, True)
    eng.prove(len(calls) == 1, "called once")
    a, kw = calls[0]
    eng.prove(len(a) == 2 and eng.same(a[0], r[5][0][0]) and eng.same(a[1], x), "with its input, then the given arguments")
    eng.prove(list(kw) == ["key"] and eng.same(kw["key"], y), "and keywords")
    if k < 2:
        convert_checks(eng, it, src)
        return
    # one item: the value (of the coroutine)
    eng.prove(not ran, "not before it is wanted")
    it = eng.force(eng.call(eng.getattr(it, "__aiter__"), []))
    v = eng.force(eng.await_(eng.call(eng.getattr(it, "__anext__"), [])))
    if k == 3:
        eng.prove(len(ran) == 1, "awaited once")
        eng.prove(isinstance(v, VBytes) and v.t == models._enc(val.t), "its result, completely converted")
    elif val is NONE:
        eng.prove(isinstance(v, VNone), "nothing")
    else:
        eng.prove(isinstance(v, VBytes) and v.t == models._enc(txt), "its text")
    try:
        eng.await_(eng.call(eng.getattr(it, "__anext__"), []))
        eng.prove(False, "one item")
    except PyExc as e:
        eng.prove(is_exc(eng, e, "StopAsyncIteration"), "then the end")

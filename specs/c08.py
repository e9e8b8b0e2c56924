"""C08 framing of input."""
from pyvc.lib import *
from pyvc import aio
from pyvc.spec import Property

P = Property("C08", trusted=[
    "the event loop calls the registered callback only while the reader is registered and the descriptor is readable; "
    "os.read returns the next bytes of the stream, b'' at its end",
    "asyncio futures (pyvc/aio.py); bytes.decode as a function, failing only with UnicodeDecodeError",
    "a pipeline is iterated by one consumer at a time",
])
IO = "pieshell.iterio."
IH, LH, BH = IO + "InputHandler", IO + "LineInputHandler", IO + "IOHandler"
SS = z3.StringSort()
NL = S("\n")


def spec():
    s = base_spec()
    aio.install(s)
    s.may_raise["bytes.decode"] = "UnicodeDecodeError"
    return s


class H(object):
    """A handler in an arbitrary state: registered, its stream read up to some
    point, `buffer` read and not handed out."""

    def __init__(self, eng, line, waiting=False, at_eof=None):
        self.eng, self.line = eng, line
        self.reads, self.closed, self.eofs = [], [], []
        self.fd = eng.fresh_int("fd")
        b = eng.fresh_str("buffer")
        self.none = False
        if not line and eng.choose(2, "buffer empty") == 1:
            self.none = True
        self.b0 = b
        self.eof0 = eng.fresh_bool("eof")
        self.bor = eng.fresh_bool("borrowed")
        fut = NONE
        self.fut = None
        if waiting:
            k = eng.choose(3, "waiting")
            if k:
                self.fut = fut = aio.new_future(eng, aio.PENDING if k == 1 else aio.CANCELLED)
        self.waiting = k if waiting else 0
        # a real one, then brought into the arbitrary state
        self.h = eng.force(eng.call(VClass(eng.cls(LH if line else IH)), [VInt(self.fd)]))
        aio.take(eng, "io")
        for k2, v in dict(buffer=NONE if self.none else VBytes(b), eof=VBool(self.eof0), future=fut, borrowed=VBool(self.bor),
                          enabled=VBool(z3.Not(self.eof0)), destroyed=VBool(self.eof0), at_eof=self.completion(at_eof)).items():
            eng.set_raw(self.h, k2, v)
        eng.ghost["got"] = S("")
        sp = eng.spec
        sp.ext["os.read"] = self.read
        sp.ext["os.close"] = lambda e, fd: (self.closed.append(e.force(fd)), NONE)[1]
        eng.extstate["suspend"] = self.suspend
        self.err = None

    def completion(self, k):
        if k is None:
            return NONE

        def check(e):
            def run(e2, v):
                self.eofs.append(1)
                if k == "fails":
                    self.err = e2.alloc(e2.extclass("builtins.ValueError"))
                    raise PyExc(self.err)
                return NONE
            return VOpaque(e.fresh_u("coroutine"), label="coroutine", attrs=["__await__"], methods={"__await__": run})
        return VNative(check, "at_eof")

    def read(self, e, fd, n):
        e.prove(e.eq(e.force(fd), VInt(self.fd)), "reads its own descriptor")
        e.prove(e.force(n).t > 0, "reads something")
        d = e.fresh_str("data")
        self.reads.append(d)
        e.ghost_set("got", z3.Concat(e.ghost["got"], d))
        return VBytes(d)

    def get(self, a):
        return self.eng.force(self.eng.get_raw(self.h, a))

    def suspend(self, e, fut):
        """Events may arrive: more is read, the end may be reached, then the
        waiting consumer is woken."""
        e.prove(e.same(self.get("future"), fut), "waits where the next event wakes it")
        e.prove(z3.Not(e.truthy(self.get("eof"))), "does not wait after the end")
        if e.choose(2, "cancelled while waiting") == 1:
            e.raise_py(e.extclass("asyncio.CancelledError"))
        d = e.fresh_str("arrived")
        eof = e.fresh_bool("ended")
        b = self.get("buffer")
        if self.line:
            e.prove(isinstance(b, VBytes), "buffer of bytes")
            e.prove(z3.Not(z3.Contains(b.t, NL)), "waits only without a complete line")
            e.set_raw(self.h, "buffer", VBytes(z3.Concat(b.t, d)))
        else:
            e.prove(isinstance(b, VNone), "waits only without data")
            e.assume(eof == (d == S("")))
            e.set_raw(self.h, "buffer", VBytes(d))
        e.ghost_set("got", z3.Concat(e.ghost["got"], d))
        e.set_raw(self.h, "eof", VBool(eof))
        e.set_raw(self.h, "future", NONE)
        e.set_raw(fut, "$state", VInt(aio.RESULT))
        e.set_raw(fut, "$value", NONE)

    def unread(self):
        """Everything read and not handed out before."""
        return z3.Concat(S("") if self.none else self.b0, self.eng.ghost["got"])


class Wait(LoopSpec):
    """While waiting everything read is kept in the buffer."""

    def __init__(self, h):
        self.h = h

    def inv(self, eng):
        b = self.h.get("buffer")
        return b.t == self.h.unread() if isinstance(b, VBytes) else z3.BoolVal(False)

    def havoc_assume(self, L):
        eng, h = L.eng, self.h
        if ("ghost", "got") in L.mods:
            eng.ghost["got"] = eng.fresh_str("got")
        eng.set_raw(h.h, "buffer", VBytes(h.unread()))
        eng.set_raw(h.h, "eof", VBool(eng.fresh_bool("eof_now")))
        eng.assume(z3.Implies(h.eof0, z3.And(eng.truthy(h.get("eof")), eng.ghost["got"] == S(""))))
        if ("attr", h.h.oid, "future") in L.mods:
            eng.set_raw(h.h, "future", NONE)

    def check(self, L, i):
        L.eng.prove(self.inv(L.eng), "waiting: nothing read is lost")


def wake_checks(eng, h, name):
    if h.waiting == 1:
        eng.prove(aio.state(eng, h.fut) == aio.RESULT, name + ": a waiting consumer is woken")
        eng.prove(isinstance(h.get("future"), VNone), name + ": once")


def ended(eng, h, name):
    """State after the end of file."""
    eng.prove(eng.truthy(h.get("eof")), name + ": the end is noted")
    io = [x for x in eng.extstate.get("io", []) if x[0] == "remove_reader"]
    eng.prove(len(io) == 1 and eng.eq(eng.force(io[0][2] if len(io[0]) > 2 else io[0][1]), VInt(h.fd)) if io else False, name + ": no more events")
    if eng.decide(h.bor, "borrowed"):
        eng.prove(not h.closed, name + ": a lent descriptor is not closed")
    else:
        eng.prove(len(h.closed) == 1 and eng.eq(h.closed[0], VInt(h.fd)), name + ": the descriptor is closed once")


@P.target("LineInputHandler.handle_event(): what is read is kept, the end is noted, the consumer woken", spec=spec,
          functions=[LH + ".handle_event", BH + ".destroy", BH + ".disable"])
def _(eng):
    h = H(eng, True, waiting=True)
    eng.assume(z3.Not(h.eof0))
    had = eng.decide(z3.Contains(h.b0, NL), "a complete line is there")
    if had and h.waiting == 1:
        return      # nobody waits while there is a line (see __anext__)
    try:
        eng.call(eng.getattr(h.h, "handle_event"), [VInt(1)])
    except PyExc as e:
        eng.prove(h.waiting == 2, "fails only if the consumer gave up")
    b = h.get("buffer")
    eng.prove(isinstance(b, VBytes) and b.t == h.unread(), "the buffer is everything read and not handed out")
    if not had:
        eng.prove(len(h.reads) == 1, "reads once")
    if h.reads and eng.decide(h.reads[-1] == S(""), "end of file"):
        ended(eng, h, "end")
    else:
        eng.prove(z3.Not(eng.truthy(h.get("eof"))), "no end without an empty read")
        eng.prove(not h.closed and not [x for x in eng.extstate.get("io", []) if x[0].startswith("remove")], "stays registered")
    wake_checks(eng, h, "event")


@P.target("InputHandler.handle_event(): what is read is kept, the end is noted, the consumer woken", spec=spec,
          functions=[IH + ".handle_event", BH + ".destroy", BH + ".disable"])
def _(eng):
    h = H(eng, False, waiting=True)
    eng.assume(z3.Not(h.eof0))
    if not h.none and h.waiting == 1:
        return      # nobody waits while there is data (see __anext__)
    try:
        eng.call(eng.getattr(h.h, "handle_event"), [VInt(1)])
    except PyExc as e:
        eng.prove(h.waiting == 2, "fails only if the consumer gave up")
    b = h.get("buffer")
    eng.prove(isinstance(b, VBytes) and b.t == h.unread(), "the buffer is everything read and not handed out")
    eng.prove(len(h.reads) == 1 if h.none else True, "reads once")
    if h.reads and eng.decide(h.reads[-1] == S(""), "end of file"):
        ended(eng, h, "end")
    else:
        eng.prove(z3.Not(eng.truthy(h.get("eof"))), "no end without an empty read")
        eng.prove(not h.closed and not [x for x in eng.extstate.get("io", []) if x[0].startswith("remove")], "stays registered")
    wake_checks(eng, h, "event")


def is_stop(eng, e):
    return eng.exc_matches(e.value, eng.extclass("builtins.StopAsyncIteration"))


@P.target("LineInputHandler.__anext__(): the next line, each once; after the end the completion check, then the end", spec=spec,
          functions=[LH + ".__anext__"])
def _(eng):
    k = [None, "ok", "fails"][eng.choose(3, "completion check")]
    h = H(eng, True, at_eof=k)
    eng.spec.whiles["*"] = Wait(h)
    out = exc = None
    try:
        out = eng.force(eng.await_(eng.call(eng.getattr(h.h, "__anext__"), [])))
    except PyExc as e:
        exc = e
    b = h.get("buffer")
    eng.prove(isinstance(b, VBytes), "buffer of bytes")
    B = h.unread()
    if exc is not None and eng.exc_matches(exc.value, eng.extclass("asyncio.CancelledError")) and not h.eofs:
        eng.prove(b.t == B, "a cancelled consumer loses nothing")
        return
    if eng.decide(z3.Contains(B, NL), "a complete line"):
        eng.prove(not h.eofs, "the completion check comes after the last line")
        l = z3.SubString(B, 0, z3.Length(B) - z3.Length(b.t) - 1)
        for _, a, sep, rest in eng.extstate.get("splits", []):
            if rest.eq(z3.simplify(b.t)):
                l = a           # the witness: what the code split off
        eng.prove(B == z3.Concat(l, NL, b.t), "what follows the line is kept")
        eng.prove(z3.Not(z3.Contains(l, NL)), "no more than one line is taken")
        if exc is not None:
            eng.prove(eng.exc_matches(exc.value, eng.extclass("builtins.UnicodeDecodeError")), "only undecodable lines fail")
            return
        eng.prove(isinstance(out, VStr), "text")
        eng.prove(out.t == models._dec(l), "exactly the next line, without its newline")
    elif eng.decide(B != S(""), "a last line without newline"):
        eng.prove(eng.truthy(h.get("eof")), "only at the end")
        eng.prove(not h.eofs, "the completion check comes after the last line")
        eng.prove(b.t == S(""), "then nothing is left")
        if exc is not None:
            eng.prove(eng.exc_matches(exc.value, eng.extclass("builtins.UnicodeDecodeError")), "only undecodable lines fail")
            return
        eng.prove(isinstance(out, VStr), "text")
        eng.prove(out.t == models._dec(B), "exactly the last line")
    else:
        eng.prove(eng.truthy(h.get("eof")), "ends only after the end of file")
        eng.prove(exc is not None, "ends")
        eng.prove(len(h.eofs) == (0 if k is None else 1), "after the completion check has run once")
        if k == "fails":
            eng.prove(eng.same(exc.value, h.err), "its failure is passed on")
        else:
            eng.prove(is_stop(eng, exc), "end of the iteration")


@P.target("InputHandler.__anext__(): the next bytes, each once; after the end the completion check, then the end", spec=spec,
          functions=[IH + ".__anext__"])
def _(eng):
    k = [None, "ok", "fails"][eng.choose(3, "completion check")]
    h = H(eng, False, at_eof=k)
    out = exc = None
    ended0 = eng.decide(h.eof0, "at the end")
    try:
        out = eng.force(eng.await_(eng.call(eng.getattr(h.h, "__anext__"), [])))
    except PyExc as e:
        exc = e
    b = h.get("buffer")
    B = h.unread()
    left = b.t if isinstance(b, VBytes) else S("")
    if exc is None:
        eng.prove(not h.eofs, "the completion check comes after the last bytes")
        eng.prove(isinstance(out, VBytes) and z3.Concat(out.t, left) == B, "exactly the next bytes")
        eng.prove(isinstance(b, VNone), "handed out once")
    elif h.none and ended0:
        eng.prove(len(h.eofs) == (0 if k is None else 1), "after the completion check has run once")
        if k == "fails":
            eng.prove(eng.same(exc.value, h.err), "its failure is passed on")
        else:
            eng.prove(is_stop(eng, exc), "end of the iteration")
    else:
        eng.prove(eng.exc_matches(exc.value, eng.extclass("asyncio.CancelledError")), "fails only when cancelled")
        eng.prove(left == B, "a cancelled consumer loses nothing")


@P.target("a new handler: nothing read, registered, events reach it", spec=spec,
          functions=[IH + ".__init__", LH + ".__init__", BH + ".__init__", BH + ".enable", IH + ".__aiter__", LH + ".__aiter__"])
def _(eng):
    line = eng.choose(2, "lines") == 1
    fd = VInt(eng.fresh_int("fd"))
    chk = VOpaque(eng.fresh_u("check"), label="check")
    cls = eng.cls(LH if line else IH)
    bor = VBool(eng.fresh_bool("borrowed"))
    n = []
    eng.spec.contracts[(LH if line else IH) + ".handle_event"] = lambda e, s, ev: (n.append(s), NONE)[1]
    h = eng.force(eng.call(VClass(cls), [fd], {"at_eof": chk, "borrowed": bor}))
    b = eng.force(eng.get_raw(h, "buffer"))
    eng.prove(isinstance(b, VNone) or (isinstance(b, VBytes) and b.t == S("")), "nothing read yet")
    eng.prove(z3.Not(eng.truthy(eng.get_raw(h, "eof"))), "not at the end")
    eng.prove(eng.same(eng.get_raw(h, "at_eof"), chk), "completion check kept")
    eng.prove(eng.eq(eng.get_raw(h, "borrowed"), bor), "ownership kept")
    io = aio.take(eng, "io")
    rd = [x for x in io if x[0] == "add_reader"]
    eng.prove(len(rd) == 1 and len(io) == 1, "registered for reading, once")
    args = [a for a in rd[0][1:]]
    eng.prove(eng.eq(eng.force(args[0]), fd), "its descriptor")
    eng.call(args[1], args[2:])
    polls = aio.take(eng, "polls")
    for x in polls:
        eng.prove(eng.eq(x[0], fd), "asks for its own descriptor")
    if polls and not polls[-1][1]:
        eng.prove(len(n) == 0, "nothing happens when another reader of the descriptor was faster")
    else:
        eng.prove(len(n) == 1 and eng.same(n[0], h), "each event is handled once")
    eng.prove(len(polls) > 0, "what another reader has taken is not waited for")
    eng.prove(eng.same(eng.call(eng.getattr(h, "__aiter__"), []), h), "iterating starts where it is")


@P.target("a handler of a descriptor that cannot be polled: handled on every round of the loop until disabled", spec=spec,
          functions=[BH + ".enable", BH + ".disable"])
def _(eng):
    line = eng.choose(2, "lines") == 1
    eng.extstate["nopoll"] = True
    eng.extstate["readable"] = True     # files and devices are always readable
    n = []
    eng.spec.contracts[(LH if line else IH) + ".handle_event"] = lambda e, s, ev: (n.append(s), NONE)[1]
    h = eng.force(eng.call(VClass(eng.cls(LH if line else IH)), [VInt(eng.fresh_int("fd"))]))
    for k in range(2):
        io = aio.take(eng, "io")
        eng.prove(len(io) == 1 and io[0][0] == "call_soon", "scheduled once")
        n.clear()
        eng.call(io[0][1], list(io[0][2:]))
        eng.prove(len(n) == 1 and eng.same(n[0], h), "each round is one event")
    io = aio.take(eng, "io")
    n.clear()
    eng.call(eng.getattr(h, "disable"), [])
    aio.take(eng, "io")
    eng.call(io[0][1], list(io[0][2:]))
    eng.prove(not n and not aio.take(eng, "io"), "none once disabled")


RP = "pieshell.pipeline.running.RunningPipeline"
B_ = "pieshell.pipeline.base.Pipeline"


@P.target("reading a running pipeline reads its standard output and waits for it at the end", spec=spec,
          functions=[RP + ".__aiter__", RP + ".iterbytes"])
def _(eng):
    RD, RS = "pieshell.redir.Redirect", "pieshell.redir.Redirects"
    mk = lambda n, p: eng.new_obj(eng.cls(RD), fd=VInt(n), source=VInt(9), flag=VInt(0), mode=VInt(0), pipe=p, borrowed=VBool(False))
    out, other = VInt(eng.fresh_int("outpipe")), VInt(eng.fresh_int("otherpipe"))
    t = eng.new_obj(eng.cls(RS), redirects=eng.new_dict(DictRep(None, [(VInt(0), mk(0, other)), (VInt(1), mk(1, out)), (VInt(2), mk(2, other))])))
    pl = eng.new_obj(eng.cls(B_), _redirects=t)
    rp = eng.new_obj(eng.cls(RP), pipeline=pl, processes=eng.new_list(Rope([])))
    waits = []
    eng.spec.contracts[RP + ".wait"] = lambda e, s: (waits.append(s), NONE)[1]
    line = eng.choose(2, "lines") == 1
    h = eng.force(eng.call(eng.getattr(rp, "__aiter__" if line else "iterbytes"), []))
    eng.prove(isinstance(h, Ref) and h.cls is eng.cls(LH if line else IH), "lines or bytes")
    eng.prove(eng.eq(eng.get_raw(h, "fd"), out), "of the standard output")
    eng.prove(z3.Not(eng.truthy(eng.get_raw(h, "borrowed"))), "which is closed at the end")
    eng.call(eng.get_raw(h, "at_eof"), [])
    eng.prove(len(waits) == 1 and eng.same(waits[0], rp), "waits for this pipeline")


@P.target("iterating a pipeline runs it with its output in a pipe", spec=spec,
          functions=[B_ + ".__aiter__", B_ + ".__iter__", B_ + ".__bytes__", B_ + ".__str__"])
def _(eng):
    pl = eng.new_obj(eng.cls(B_))
    lines = VOpaque(eng.fresh_u("lines"), attrs=["__anext__"], label="lines")
    byt = VOpaque(eng.fresh_u("bytes"), attrs=["__anext__"], label="bytes")
    run = VOpaque(eng.fresh_u("running"), attrs=["__aiter__", "iterbytes"], label="running",
                  methods={"__aiter__": lambda e, s: lines, "iterbytes": lambda e, s: byt})
    runs = []

    def dorun(e, s, redirects=None):
        runs.append((s, redirects))
        return run
    eng.spec.contracts[B_ + ".run"] = dorun
    f = z3.Function("chunkdata", z3.IntSort(), SS)
    parts = [VBytes(f(I(i))) for i in range(3)]
    it = []

    def toiter(e, x):
        it.append(e.force(x))
        return e.new_list(Rope([Elems(parts)]))
    eng.spec.contracts["pieshell.utils.asyncutils.asyncitertoiter"] = toiter
    k = eng.choose(4, "how")
    res = eng.call(eng.getattr(pl, ["__aiter__", "__iter__", "__bytes__", "__str__"][k]), []) if k < 3 else None
    if k == 3:
        try:
            res = eng.call(eng.getattr(pl, "__str__"), [])
        except PyExc as e:
            eng.prove(eng.exc_matches(e.value, eng.extclass("builtins.UnicodeDecodeError")), "only undecodable output fails")
            return
    eng.prove(len(runs) == 1 and eng.same(runs[0][0], pl), "runs the pipeline once")
    reds = models.iter_rope(eng, runs[0][1]).concrete()
    eng.prove(len(reds) == 1, "with one redirection")
    r = eng.force(reds[0])
    eng.prove(eng.eq(eng.getattr(r, "fd"), VInt(1)), "of its standard output")
    eng.prove(eng.same(eng.getattr(r, "source"), VClass(eng.cls("pieshell.redir.PIPE"))), "to a pipe")
    if k == 0:
        eng.prove(eng.same(res, lines), "its lines")
    elif k == 1:
        eng.prove(len(it) == 1 and eng.same(it[0], lines), "its lines")
    else:
        eng.prove(len(it) == 1 and eng.same(it[0], byt), "its bytes")
        whole = z3.Concat(*[p.t for p in parts])
        res = eng.force(res)
        if k == 2:
            eng.prove(isinstance(res, VBytes) and res.t == whole, "all bytes, in order")
        else:
            eng.prove(isinstance(res, VStr) and res.t == models._dec(whole), "decoded as a whole")

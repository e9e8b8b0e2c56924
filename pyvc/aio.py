"""Futures, tasks and the event loop, as far as the code under verification
uses them (trusted model of asyncio).

A future is pending, done with a value, done with an exception or cancelled;
completing one that is not pending raises InvalidStateError.  Awaiting a
pending future suspends: the specification's hook extstate["suspend"] says
what may have happened before it completes."""
import z3

from .values import *
from .engine import PyExc, ExtClass
from . import models

PENDING, RESULT, EXC, CANCELLED = range(4)
FUT = "asyncio.Future"


def state(eng, f):
    return eng.get_raw(f, "$state").t


def new_future(eng, st=PENDING, value=NONE, label=None):
    r = eng.alloc(eng.extclass(FUT))
    a = eng.heap[r.oid].attrs
    a["$state"] = VInt(st) if isinstance(st, int) else VInt(st)
    a["$value"] = value
    return r


def is_done(eng, f):
    return z3.simplify(state(eng, f) != PENDING)


def invalid(eng):
    e = eng.alloc(eng.extclass("asyncio.InvalidStateError"))
    eng.heap[e.oid].attrs["args"] = VTuple([])
    eng.heap[e.oid].extra = "InvalidStateError"
    raise PyExc(e)


def finish(eng, f, st, v):
    if eng.decide(is_done(eng, f), "future already done"):
        invalid(eng)
    eng.set_raw(f, "$state", VInt(st))
    eng.set_raw(f, "$value", v)
    return NONE


def set_exception(eng, f, e):
    e = eng.force(e)
    if isinstance(e, (VClass, VExt)):
        e = eng.force(eng.call(e, []))
    return finish(eng, f, EXC, e)


def get(eng, f):
    s = state(eng, f)
    if eng.decide(s == RESULT, "future has a result"):
        return eng.get_raw(f, "$value")
    if eng.decide(s == EXC, "future has an exception"):
        raise PyExc(eng.force(eng.get_raw(f, "$value")))
    if eng.decide(s == CANCELLED, "future cancelled"):
        eng.raise_py(eng.extclass("asyncio.CancelledError"))
    invalid(eng)


def exception(eng, f):
    s = state(eng, f)
    if eng.decide(s == EXC, "future has an exception"):
        return eng.get_raw(f, "$value")
    if eng.decide(s == RESULT, "future has a result"):
        return NONE
    invalid(eng)


def cancel(eng, f, *a):
    if eng.decide(is_done(eng, f), "future already done"):
        return VBool(False)
    eng.set_raw(f, "$state", VInt(CANCELLED))
    return VBool(True)


def install(s):
    m = s.ext_methods
    m[(FUT, "done")] = lambda eng, f: VBool(is_done(eng, f))
    m[(FUT, "set_result")] = lambda eng, f, v: finish(eng, f, RESULT, v)
    m[(FUT, "set_exception")] = set_exception
    m[(FUT, "exception")] = exception
    m[(FUT, "result")] = get
    m[(FUT, "cancel")] = cancel
    m[(FUT, "cancelled")] = lambda eng, f: VBool(state(eng, f) == CANCELLED)
    m[(FUT, "__await__")] = lambda eng, f: f

    def record(kind):
        def h(eng, *args, **kw):
            args = [a for a in args]
            if kind in ("add_reader", "add_writer") and eng.extstate.get("nopoll"):
                eng.raise_py("PermissionError")
            eng.extstate.setdefault("io", []).append((kind,) + tuple(args))
            return NONE
        return h

    def loop(eng, *a):
        if "evloop" not in eng.extstate:
            meths = {
                "create_future": lambda e, l: new_future(e),
                "create_task": lambda e, l, c, **kw: task(e, c),
                "run_until_complete": lambda e, l, c: e.await_(c),
            }
            for k in ("add_reader", "add_writer", "remove_reader", "remove_writer", "add_signal_handler", "call_soon"):
                meths[k] = (lambda k: lambda e, l, *a, **kw: record(k)(e, *a))(k)
            eng.extstate["evloop"] = VOpaque(eng.fresh_u("loop"), attrs=list(meths), label="loop", methods=meths)
        return eng.extstate["evloop"]

    def task(eng, c, **kw):
        eng.extstate.setdefault("tasks", []).append(c)
        return new_future(eng)
    def poll(eng, *a):
        """a poll object: whether something can be read is decided when it is asked"""
        fds = []

        def register(e, o, fd, mask=None):
            m = 7 if mask is None else z3.simplify(e.force(mask).t)
            if not isinstance(m, int):
                if not z3.is_int_value(m):
                    raise Unsupported("poll for a symbolic mask")
                m = m.as_long()
            fds.append((e.force(fd), m))
            return NONE

        def ask(e, o, timeout=None):
            timeout = NONE if timeout is None else e.force(timeout)
            if not isinstance(timeout, VInt) or len(fds) != 1 or not fds[0][1] & 1:
                raise Unsupported("poll")
            e.prove(timeout.t == 0, "does not wait")
            r = e.extstate.get("readable")
            yes = r if r is not None else e.choose(2, "readable") == 0
            e.extstate.setdefault("polls", []).append((fds[0][0], yes))
            return e.new_list(Rope([Elems([VTuple([fds[0][0], VInt(1)])] if yes else [])]))
        meths = {"register": register, "poll": ask}
        return VOpaque(eng.fresh_u("poll"), attrs=list(meths), label="poll", methods=meths)
    s.ext["select.poll"] = poll
    for n in ("get_event_loop", "get_running_loop", "new_event_loop"):
        s.ext["asyncio." + n] = loop
    s.ext["asyncio.ensure_future"] = task
    s.ext["asyncio.create_task"] = task
    s.ext["asyncio.Future"] = lambda eng, **kw: new_future(eng)
    s.ext["asyncio.shield"] = lambda eng, f, **kw: f

    def on_await(eng, v):
        v = eng.force(v)
        if isinstance(v, Ref) and isinstance(v.cls, ExtClass) and v.cls.qualname == FUT:
            if not eng.decide(is_done(eng, v), "future done"):
                h = eng.extstate.get("suspend")
                if h is None:
                    raise Unsupported("await on a pending future")
                h(eng, v)
            return get(eng, v)
        if isinstance(v, VOpaque) and "__await__" in v.methods:
            return v.methods["__await__"](eng, v)
        if isinstance(v, Ref):
            hit = eng.lookup_class(v.cls, "__await__") if not isinstance(v.cls, ExtClass) else None
            if hit:
                r = eng.force(eng.call(eng.getattr(v, "__await__"), []))
                return eng.await_(r)
        raise Unsupported("await on %r" % (v,))
    s.on_await = on_await
    # c.__await__() of a coroutine
    return s


def take(eng, key):
    """Recorded calls since the last take."""
    return eng.extstate.pop(key, [])

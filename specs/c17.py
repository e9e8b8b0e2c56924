"""C17 iterator adapters.

Per call: the adapter takes exactly one item of its source and yields the
corresponding one; by induction over the calls the sequences correspond."""
from pyvc.lib import *
from pyvc.spec import Property

P = Property("C17", trusted=[
    "loop.run_until_complete(c) runs the coroutine c to its end and returns its value or raises its exception",
    "the iteration protocol (for, yield, next, __anext__) as defined by Python",
])
A = "pieshell.utils.asyncutils."
J = "pieshell.utils.jsonutils."


def expect(eng, src, p0, call, result, name, stop):
    """One step: call() must give result(p0) and take one item, or end."""
    try:
        v = call()
    except PyExc as e:
        eng.prove(p0 >= src.n, name + ": no item is lost")
        if src.fails:
            eng.prove(eng.same(e.value, src.exc), name + ": an exception of the source is passed through")
        else:
            eng.prove(is_exc(eng, e, stop), name + ": ends when the source ends")
        eng.prove(src.pos == p0, name + ": nothing is skipped")
        return
    eng.prove(p0 < src.n, name + ": no item is invented")
    eng.prove(src.pos == p0 + 1, name + ": takes exactly one item of the source")
    eng.prove(result(p0, v), name + ": yields exactly the corresponding item")


@P.target("itertoasync: each item, in order, coroutines awaited", functions=[A + "itertoasync.__init__", A + "itertoasync.__aiter__", A + "itertoasync.__anext__"])
def _(eng):
    src = Source(eng, coros=True)
    p0 = src.pos
    o = eng.call(VClass(eng.cls(A + "itertoasync")), [src.it])
    eng.prove(src.pos == p0, "creating the adapter takes nothing")
    o2 = eng.call(eng.getattr(o, "__aiter__"), [])
    for k in range(2):
        p = src.pos
        src.calls.clear()
        expect(eng, src, p, lambda: eng.await_(eng.call(eng.getattr(o2, "__anext__"), [])),
               lambda p, v: False if isinstance(v, VCoro) else eng.same(v, src.item(p)), "item", "StopAsyncIteration")
    eng.prove(len(src.calls) <= 1, "awaited once")


@P.target("itertoasync: failing coroutine items pass their exception", functions=[A + "itertoasync.__anext__"])
def _(eng):
    exc = eng.alloc(eng.extclass("builtins.KeyError"))

    def run():
        raise PyExc(exc)
    it = VOpaque(eng.fresh_u("it"), attrs=["__iter__", "__next__"], methods={
        "__iter__": lambda e, s: s, "__next__": lambda e, s: VCoro(run, "c")})
    o = eng.call(VClass(eng.cls(A + "itertoasync")), [it])
    o = eng.call(eng.getattr(o, "__aiter__"), [])
    try:
        eng.await_(eng.call(eng.getattr(o, "__anext__"), []))
        eng.prove(False, "the exception is not swallowed")
    except PyExc as e:
        eng.prove(eng.same(e.value, exc), "exactly that exception")


@P.target("asyncmap: the function applied to each item once, in order", functions=[A + "asyncmap.__init__", A + "asyncmap.__call__", A + "asyncmap.__aiter__", A + "asyncmap.__anext__"])
def _(eng):
    src = Source(eng, is_async=True)
    calls, raised = [], []
    img = z3.Function("image", z3.IntSort(), U)
    fexc = eng.alloc(eng.extclass("builtins.ValueError"))

    def f(e, x):
        p = src.pos - 1
        calls.append(p)
        e.prove(e.same(x, src.item(z3.simplify(p))), "the function gets the item itself")
        if e.choose(2, "function raises") == 1:
            raised.append(1)
            raise PyExc(fexc)
        return VOpaque(img(z3.simplify(p)), types=["?"], attrs=["?"], label="image")
    fn = VNative(f, "fn")
    m = eng.call(VClass(eng.cls(A + "asyncmap")), [fn])
    o = eng.call(m, [src.it])
    eng.prove(not calls, "nothing is called before an item is asked for")
    o = eng.call(eng.getattr(o, "__aiter__"), [])
    p0 = src.pos
    try:
        v = eng.await_(eng.call(eng.getattr(o, "__anext__"), []))
    except PyExc as e:
        if raised:
            eng.prove(eng.same(e.value, fexc), "an exception of the function is passed through")
            eng.prove(src.pos == p0 + 1, "at its position")
            return
        eng.prove(p0 >= src.n, "no item is lost")
        if src.fails:
            eng.prove(eng.same(e.value, src.exc), "an exception of the source is passed through")
        else:
            eng.prove(is_exc(eng, e, "StopAsyncIteration"), "ends when the source ends")
        eng.prove(not calls, "the function is not called at the end")
        return
    eng.prove(p0 < src.n, "no item is invented")
    eng.prove(len(calls) == 1, "the function is called exactly once per item")
    eng.prove(src.pos == p0 + 1, "exactly one item is taken")
    eng.prove(eng.same(v, VOpaque(img(p0))), "the mapped item is yielded")


class Balanced(LoopSpec):
    """Everything taken has been yielded."""

    def __init__(self, src):
        self.src = src

    def havoc_assume(self, L):
        eng = L.eng
        p = eng.ghost[self.src.g]
        eng.assume(z3.And(p >= self.src.start, p <= self.src.n, eng.ghost["yielded"] == p))

    def check(self, L, i):
        L.eng.prove(z3.And(L.eng.ghost["yielded"] == self.src.pos, self.src.pos >= self.src.start),
                    "loop: every item taken has been yielded, in order")


@P.target("asyncitertoiter: each item, in order, to the end", functions=[A + "asyncitertoiter"])
def _(eng):
    src = Source(eng, is_async=True)
    eng.ghost["yielded"] = src.start
    loop = VOpaque(eng.fresh_u("loop"), attrs=["run_until_complete"], methods={
        "run_until_complete": lambda e, s, c: e.await_(c)})
    eng.spec.ext["asyncio.get_event_loop"] = lambda e: loop
    eng.spec.whiles["*"] = Balanced(src)
    g = eng.call(eng.module_attr("pieshell.utils.asyncutils", "asyncitertoiter"), [src.it])
    eng.prove(isinstance(g, VGen), "an iterator")
    eng.prove(src.pos == src.start, "nothing is taken in advance")

    def on_yield(v):
        y = eng.ghost["yielded"]
        eng.prove(eng.same(v, src.item(y)), "yields the next item")
        eng.ghost_set("yielded", z3.simplify(y + 1))
        eng.prove(eng.ghost["yielded"] == src.pos, "yields every item taken, each once")
        return NONE
    try:
        g.run(on_yield)
    except PyExc as e:
        eng.prove(src.fails and eng.same(e.value, src.exc), "only the exception of the source, itself")
        eng.prove(eng.ghost["yielded"] == src.n, "after all items before it")
        return
    eng.prove(not src.fails, "an exception is not swallowed")
    eng.prove(eng.ghost["yielded"] == src.n, "ends after exactly all items")


class PerItem(LoopSpec):
    """Each iteration yields exactly what its item demands."""

    def __init__(self, want):
        self.want = want

    def havoc_assume(self, L):
        L.eng.extstate["out"] = []
        L.data["elem"] = True

    def check(self, L, i):
        eng = L.eng
        if not L.data.get("elem"):
            return
        self.want(L.elem, eng.extstate["out"])
        eng.extstate["out"] = []


def generic(eng, which, want):
    f = z3.Function("item", z3.IntSort(), U)
    isnone = z3.Function("isnone", z3.IntSort(), z3.BoolSort())
    seq = SymSeq(eng, "items", at=lambda i: VCase([(isnone(i), lambda: NONE), (z3.BoolVal(True), lambda: VOpaque(f(i), types=["?"], attrs=["?"], label="item"))]))
    lst = eng.new_list(Rope([Chunk(seq)]))
    calls = eng.extstate["calls"] = []
    fexc = eng.alloc(eng.extclass("builtins.ValueError"))
    img = z3.Function("image", U, U)

    def fn(e, x):
        x = e.force(x)
        e.prove(isinstance(x, VOpaque), "None is not passed to the function")
        calls.append(x)
        if e.choose(2, "function raises") == 1:
            raise PyExc(fexc)
        return VOpaque(img(x.t), types=["?"], attrs=["?"], label="image")
    eng.spec.loops["items"] = PerItem(lambda elem, out: want(eng, elem, out, calls, img))
    mk = eng.module_attr(J[:-1], which)
    ap = eng.call(mk, [VNative(fn, "fn")])
    g = eng.call(ap, [lst])
    eng.extstate["out"] = []
    eng.prove(not calls, "nothing is evaluated in advance")

    def on_yield(v):
        eng.extstate["out"].append(v)
        return NONE
    try:
        if isinstance(g, VGen):
            g.run(on_yield)
        else:
            raise Unsupported("the adapter is not a generator")
    except PyExc as e:
        eng.prove(eng.same(e.value, fexc), "only the exception of the function, itself")


@P.target("jsonutils.map: every item mapped once, None passed through", functions=[J + "map"])
def _(eng):
    def want(eng, elem, out, calls, img):
        eng.prove(len(out) == 1, "exactly one output per item")
        if eng.decide(eng.same(elem, NONE), "None"):
            eng.prove(eng.same(out[0], NONE), "None stays None")
            eng.prove(not calls, "None is not mapped")
        else:
            eng.prove(len(calls) == 1 and eng.same(calls[0], elem), "the function is called once with the item")
            eng.prove(eng.same(out[0], VOpaque(img(eng.force(elem).t))), "the image is yielded")
        calls.clear()
    generic(eng, "map", want)


@P.target("jsonutils.filter: exactly the selected items and None", functions=[J + "filter"])
def _(eng):
    def want(eng, elem, out, calls, img):
        if eng.decide(eng.same(elem, NONE), "None"):
            eng.prove(len(out) == 1 and eng.same(out[0], NONE), "None is passed through")
            eng.prove(not calls, "None is not tested")
        else:
            eng.prove(len(calls) == 1 and eng.same(calls[0], elem), "the function is called once with the item")
            sel = eng.truthy(VOpaque(img(eng.force(elem).t)))
            if eng.decide(sel, "selected"):
                eng.prove(len(out) == 1 and eng.same(out[0], elem), "a selected item is yielded as it is")
            else:
                eng.prove(not out, "an item not selected is dropped")
        calls.clear()
    generic(eng, "filter", want)

"""C13 running works on a copy.

copy.deepcopy is specified by recursion (its own contract for the parts):
lists, tuples and dictionaries item by item, what knows how to copy itself by
that, everything else the same object; every pipeline class copies its parts;
running starts the copy and changes nothing of the value."""
from pyvc.lib import *
from pyvc import tables
from pyvc.tables import RS, RD, PB
from pyvc.engine import Unsupported
from pyvc.spec import Property

P = Property("C13", trusted=[
    "list, tuple, dict, collections.defaultdict, contextlib and threading.local as documented",
    "objects of other classes that define __deepcopy__ copy themselves",
    "no list or dictionary contains itself",
])
DC = "pieshell.utils.copy.deepcopy"
B_ = "pieshell.pipeline."
CMD, FN, BASE = B_ + "command.Command", B_ + "function.Function", B_ + "command.BaseCommand"
PIPE, GROUP, CR = B_ + "pipe.Pipe", B_ + "group.Group", B_ + "redirect.CmdRedirect"
Z, S_ = z3.IntSort(), z3.StringSort()
COPY = z3.Function("copy_of", U, U)


def one(eng, a, b):
    """certainly the same object"""
    return z3.is_true(z3.simplify(eng.same(a, b)))


def unchanged(eng, obj, before):
    now = eng.heap[obj.oid].attrs
    for k in sorted(set(now) | set(before)):
        eng.prove(k in now and k in before, "the original stays as it is")
        eng.prove(same_val(eng, now[k], before[k]), "the original stays as it is")


class Copies(object):
    """the contract: every call is recorded and answered with a copy"""

    def __init__(self, eng):
        self.eng = eng
        self.calls = []         # (what, copy)
        eng.spec.contracts[DC] = self.copy

    def copy(self, eng, x):
        v = eng.force(x)
        if isinstance(v, VStr):
            return v
        if isinstance(v, VOpaque):
            r = VOpaque(COPY(v.t), label="copy of " + v.label)
        elif isinstance(v, Ref) and v.cls is not None:
            r = eng.new_obj(v.cls)
        else:
            r = VOpaque(eng.fresh_u("copy"), types=["?"], label="copy")
        self.calls.append((v, r))
        return r

    def of(self, x):
        """the copies made of x"""
        return [r for v, r in self.calls if one(self.eng, v, x)]


def deepcopy(eng, x):
    f = eng.module_attr("pieshell.utils.copy", "deepcopy")
    return eng.force(eng.call_function(f, [x], {}, force_inline=True))


def items(eng, name="items"):
    f = z3.Function(eng.fresh_name(name), Z, U)
    return SymSeq(eng, eng.fresh_name(name), at=lambda i: VOpaque(f(i), types=["?"], label="item")), f


def fresh(eng, r, *old):
    r = eng.force(r)
    return isinstance(r, Ref) and not any(isinstance(eng.force(x), Ref) and eng.force(x).oid == r.oid for x in old)


@P.target("deepcopy: a list or tuple, item by item in order", spec=base_spec, functions=[DC, "pieshell.utils.copy.copy_session"])
def _(eng):
    Copies(eng)
    kind = eng.choose(2, "kind")
    seq, f = items(eng)
    rope = Rope([Chunk(seq)])
    x = eng.new_list(rope) if kind == 0 else VTuple(rope)
    r = deepcopy(eng, x)
    if kind == 0:
        eng.prove(isinstance(r, Ref) and eng.class_of(r) is eng.class_of(x), "a list")
        eng.prove(fresh(eng, r, x), "another one")
    else:
        eng.prove(isinstance(r, VTuple), "a tuple")
    got = models.iter_rope(eng, r)
    eng.prove(got.length() == seq.n, "every item")
    i = eng.fresh_int("i")
    eng.assume(z3.And(i >= 0, i < seq.n))
    v = eng.force(models.index_rope(eng, got, i))
    eng.prove(isinstance(v, VOpaque) and v.t == COPY(f(i)), "its copy, in its place")
    now = models.iter_rope(eng, x)
    eng.prove(now.length() == seq.n, "the original stays as it is")
    v = eng.force(models.index_rope(eng, now, i))
    eng.prove(isinstance(v, VOpaque) and v.t == f(i), "the original stays as it is")


class Copied(LoopSpec):
    """a dictionary is built: after i items it has the copies of exactly those"""

    def __init__(self, d, f):
        self.d, self.f = d, f

    def dicts(self, L):
        return [m[1] for m in sorted(L.mods, key=str) if m[0] == "content" and m[1] in L.entry["heap"] and isinstance(L.entry["heap"][m[1]].content, DictRep)]

    def havoc_assume(self, L):
        i = L.i
        for oid in self.dicts(L):
            d = SymDict(L.eng, "copied", S_, lambda k: VOpaque(COPY(self.f(k)), label="copy"), lambda k: VStr(k), has=lambda k: z3.And(self.d.has(k), self.d.posf(k) < i))
            L.eng.heap[oid].content = DictRep(d)

    def check(self, L, i):
        eng = L.eng
        for oid in self.dicts(L):
            rep = eng.heap[oid].content
            if z3.is_int_value(i) and i.as_long() == 0:
                eng.prove(rep.base is None and not rep.over, "empty at first")
                continue
            self.agree(eng, rep, i)

    def agree(self, eng, rep, i=None):
        q = eng.fresh_str("q")
        w = self.d.has(q) if i is None else z3.And(self.d.has(q), self.d.posf(q) < i)
        eng.prove(models.dict_has(eng, rep, VStr(q)) == w, "the same keys")
        if eng.decide(w, "there"):
            v = models.dict_find(eng, rep, VStr(q))
            v = None if v is None else eng.force(v)
            eng.prove(isinstance(v, VOpaque) and v.t == COPY(self.f(q)), "the copy of its value")


@P.target("deepcopy: a dictionary, value by value", spec=base_spec, functions=[DC])
def _(eng):
    Copies(eng)
    f = z3.Function(eng.fresh_name("value"), S_, U)
    d = SymDict(eng, "D", S_, lambda k: VOpaque(f(k), types=["?"], label="value"), lambda k: VStr(k))
    rep = DictRep(d)
    x = eng.new_dict(rep)
    c = Copied(d, f)
    eng.spec.loops["D"] = lambda e, L: c
    r = deepcopy(eng, x)
    eng.prove(isinstance(r, Ref) and eng.class_of(r) is eng.class_of(x), "a dictionary")
    eng.prove(fresh(eng, r, x), "another one")
    c.agree(eng, models.dict_rep(eng, r))
    eng.prove(eng.content(x) is rep, "the original stays as it is")


@P.target("deepcopy: strings, numbers, functions, iterators, environments and classes stay as they are", spec=base_spec, functions=[DC])
def _(eng):
    Copies(eng)
    kind = eng.choose(12, "kind")
    t = lambda **k: VOpaque(eng.fresh_u("type"), label="type", **k)
    o = lambda types=(), attrs=(), **m: VOpaque(eng.fresh_u("object"), types=list(types), attrs=list(attrs), label="object", methods=dict({"__class__": t()}, **m))
    no = lambda e, *a, **k: (e.prove(False, "is not copied"), NONE)[1]
    x = [lambda: VStr(eng.fresh_str("text")), lambda: VBytes(eng.fresh_str("bytes")), lambda: VInt(eng.fresh_int("number")),
         lambda: VBool(eng.fresh_bool("flag")), lambda: NONE, lambda: o(["types.FunctionType"], ["__call__"]), lambda: o(["types.MethodType"], ["__call__"]),
         lambda: o([], ["__iter__", "__next__"]), lambda: o([], ["__aiter__"]),
         # an environment has every attribute, its class does not
         lambda: eng.new_obj(eng.cls("pieshell.environ.Environment")),
         lambda: VClass(eng.cls("pieshell.redir.PIPE")), lambda: o(["builtins.str"], ["__str__"], __str__=no)][kind]()
    r = deepcopy(eng, x)
    if isinstance(x, (VStr, VBytes, VInt, VBool)):
        eng.prove(type(r) is type(x) and eng.eq(r, x), "the same")
    else:
        eng.prove(eng.same(r, x), "the same object")


@P.target("deepcopy: objects that know how to copy themselves do that", spec=base_spec, functions=[DC])
def _(eng):
    Copies(eng)
    made = []
    n = []

    def dc(e, s, memo=None, *a):
        n.append(memo)
        v = VOpaque(e.fresh_u("copy"), label="copy")
        made.append(v)
        return v
    typ = VOpaque(eng.fresh_u("type"), attrs=["__deepcopy__"], label="type")
    x = VOpaque(eng.fresh_u("object"), attrs=["__deepcopy__"], label="object", methods={"__deepcopy__": dc, "__class__": typ})
    r = deepcopy(eng, x)
    eng.prove(len(made) == 1 and one(eng, r, made[0]), "its copy, made once")
    eng.prove(n and n[0] is not None, "with a table of what has been copied, as documented")


@P.target("deepcopy: named tuples and dictionaries with defaults, of their class", spec=base_spec, functions=[DC])
def _(eng):
    Copies(eng)
    if eng.choose(2, "kind") == 0:
        seq, f = items(eng)
        made = []

        def make(e, s, it):
            made.append(models.iter_rope(e, it))
            return VOpaque(e.fresh_u("named"), label="named")
        typ = VOpaque(eng.fresh_u("type"), attrs=["_make"], label="type", methods={"_make": make})
        x = VOpaque(eng.fresh_u("named"), types=["builtins.tuple"], attrs=["__iter__"], label="named",
                    methods={"__class__": typ, "$rope": lambda e, s: Rope([Chunk(seq)])})
        deepcopy(eng, x)
        eng.prove(len(made) == 1, "one of its class")
        got = made[0]
        eng.prove(got.length() == seq.n, "every item")
        i = eng.fresh_int("i")
        eng.assume(z3.And(i >= 0, i < seq.n))
        v = eng.force(models.index_rope(eng, got, i))
        eng.prove(isinstance(v, VOpaque) and v.t == COPY(f(i)), "its copy, in its place")
        return
    f = z3.Function(eng.fresh_name("value"), S_, U)
    d = SymDict(eng, "D", S_, lambda k: VOpaque(f(k), types=["?"], label="value"), lambda k: VStr(k))
    c = Copied(d, f)
    eng.spec.loops["D"] = lambda e, L: c
    inner = eng.new_dict(DictRep(d))
    made = []

    def make(e, s, *a):
        made.append(a)
        return VOpaque(e.fresh_u("dict"), label="dict")
    typ = VOpaque(eng.fresh_u("type"), label="type", methods={"__call__": make})
    factory = VOpaque(eng.fresh_u("factory"), label="factory")
    x = VOpaque(eng.fresh_u("dict"), types=["builtins.dict", "collections.defaultdict"], label="dict",
                methods={"__class__": typ, "default_factory": factory, "items": lambda e, s: e.call(e.getattr(inner, "items"), [])})
    deepcopy(eng, x)
    eng.prove(len(made) == 1 and len(made[0]) == 2, "one of its class")
    eng.prove(eng.same(made[0][0], factory), "with its default")
    c.agree(eng, models.dict_rep(eng, made[0][1]))


# ---------------------------------------------------------------- the classes

def env(eng):
    return eng.new_obj(eng.cls("pieshell.environ.Environment"), _interactive=VBool(eng.fresh_bool("interactive")))


def opq(eng, name):
    return VOpaque(eng.fresh_u(name), types=["?"], label=name)


def classcopy(eng, cls, e, **at):
    obj = eng.new_obj(eng.cls(cls), _env=e, _started=VBool(False), **at)
    before = dict(eng.heap[obj.oid].attrs)
    r = eng.force(eng.call(eng.getattr(obj, "__deepcopy__"), [eng.new_dict(DictRep(None, []))] if eng.choose(2, "table given") else []))
    eng.prove(isinstance(r, Ref) and r.cls is obj.cls, "one of the same class")
    eng.prove(fresh(eng, r, obj), "another object")
    eng.prove(eng.same(eng.get_raw(r, "_env"), e), "in the same environment")
    eng.prove(z3.Not(eng.truthy(eng.get_raw(r, "_started"))), "not started")
    unchanged(eng, obj, before)
    return obj, r


for _cls, _parts in ((PIPE, ("src", "dst")), (GROUP, ("a", "b")), (CR, ("pipeline", "cmd_redirects"))):
    def _t(cls, parts):
        @P.target("%s: a copy of each part" % cls.split(".")[-1], spec=base_spec, functions=[cls + ".__deepcopy__"])
        def _(eng):
            c = Copies(eng)
            same = eng.choose(2, "parts") == 1
            xs = [eng.new_obj(eng.cls(CMD)) for p in parts]
            if same:
                xs[1] = xs[0]
            obj, r = classcopy(eng, cls, env(eng), **dict(zip(parts, xs)))
            got = [eng.force(eng.get_raw(r, p)) for p in parts]
            for p, x, g in zip(parts, xs, got):
                eng.prove(any(one(eng, g, y) for y in c.of(x)), "the copy of " + p)
            eng.prove(z3.Not(eng.same(got[0], got[1])), "each a copy of its own, of parts used twice as well")
    _t(_cls, _parts)


@P.target("Command, Builtin: a copy of the arguments", spec=base_spec, functions=[BASE + ".__deepcopy__"])
def _(eng):
    c = Copies(eng)
    args = eng.new_list(Rope([Chunk(items(eng)[0])]))
    cseq, f = items(eng, "copied")
    copied = eng.new_list(Rope([Chunk(cseq)]))

    def copy(e, x):
        e.prove(e.same(x, args), "the arguments are copied")
        return copied
    eng.spec.contracts[DC] = copy
    obj, r = classcopy(eng, [CMD, B_ + "builtin.Builtin"][eng.choose(2, "class")], env(eng), _arg=args, _running_process=NONE)
    got = models.iter_rope(eng, eng.get_raw(r, "_arg"))
    eng.prove(got.length() == cseq.n, "all of them")
    i = eng.fresh_int("i")
    eng.assume(z3.And(i >= 0, i < cseq.n))
    eng.prove(eng.force(models.index_rope(eng, got, i)).t == f(i), "the copies, in order")
    eng.prove(fresh(eng, eng.get_raw(r, "_arg"), args), "in a list of its own")
    eng.prove(isinstance(eng.force(eng.get_raw(r, "_running_process")), VNone), "no process yet")


@P.target("Function: the same function with copies of the arguments", spec=base_spec, functions=[FN + ".__deepcopy__"])
def _(eng):
    fn = opq(eng, "function")
    arg, x, y = VTuple([opq(eng, "x"), opq(eng, "y")]), opq(eng, "copy of x"), opq(eng, "copy of y")
    kw, z = eng.new_dict(DictRep(None, [(VStr("key"), opq(eng, "z"))])), opq(eng, "copy of z")

    def copy(e, v):
        v = e.force(v)
        if v is arg:
            return VTuple([x, y])
        e.prove(e.same(v, kw), "the arguments are copied")
        return e.new_dict(DictRep(None, [(VStr("key"), z)]))
    eng.spec.contracts[DC] = copy
    obj, r = classcopy(eng, FN, env(eng), function=fn, _arg=arg, _kw=kw)
    eng.prove(eng.same(eng.get_raw(r, "function"), fn), "the same function or iterator")
    got = models.iter_rope(eng, eng.get_raw(r, "_arg")).concrete()
    eng.prove(len(got) == 2 and one(eng, got[0], x) and one(eng, got[1], y), "the copies of its arguments, in order")
    rep = models.dict_rep(eng, eng.get_raw(r, "_kw"))
    v = models.dict_find(eng, rep, VStr("key"))
    eng.prove(v is not None and one(eng, v, z) and len(rep.over) == 1, "and of its named arguments")


@P.target("Redirect: the same redirection, of another object", spec=base_spec, functions=[RD + ".__deepcopy__"])
def _(eng):
    c = Copies(eng)
    src = opq(eng, "source")
    at = dict(fd=VInt(eng.fresh_int("fd")), flag=VInt(eng.fresh_int("flag")), mode=VInt(eng.fresh_int("mode")), pipe=VInt(eng.fresh_int("pipe")), borrowed=VBool(eng.fresh_bool("borrowed")))
    obj = eng.new_obj(eng.cls(RD), source=src, **at)
    r = eng.force(eng.call(eng.getattr(obj, "__deepcopy__"), []))
    eng.prove(isinstance(r, Ref) and r.cls is obj.cls and fresh(eng, r, obj), "another redirection")
    for k, v in at.items():
        eng.prove(eng.eq(eng.get_raw(r, k), v), "with the same " + k)
        eng.prove(eng.eq(eng.get_raw(obj, k), v), "the original stays as it is")
    eng.prove(any(one(eng, eng.get_raw(r, "source"), y) for y in c.of(src)), "to a copy of what it names")
    eng.prove(eng.same(eng.get_raw(obj, "source"), src), "the original stays as it is")


@P.target("Redirects: the same table with redirections of its own", spec=base_spec, functions=[RS + ".__deepcopy__", RS + ".__init__", RS + ".register"])
def _(eng):
    t = Table(eng, "A")
    fam = Fam(eng, "copies", eng.cls(RD), dict(t.fam.fields))

    def copy(e, r):
        if not (isinstance(r, FRef) and r.fam is t.fam):
            raise Unsupported("copy of another object")
        return FRef(fam, r.key)
    eng.spec.contracts[DC] = copy
    d = SymDict(eng, "A", Z, lambda k: FRef(fam, k), lambda k: VInt(k), has=t.dict._has, n=t.dict.n)
    d.keyf, d.posf = t.dict.keyf, t.dict.posf
    eng.spec.loops["A"] = lambda e, L: CopyLoop(e, d)
    eng.spec.loops["A.values"] = None
    r = eng.force(eng.call(eng.getattr(t.ref, "__deepcopy__"), []))
    eng.prove(isinstance(r, Ref) and r.cls is t.ref.cls and fresh(eng, r, t.ref), "another table")
    q = eng.fresh_int("k")
    rep = table_content(eng, r)
    eng.prove(has_at(eng, rep, q) == t.dict.has(q), "the same descriptors")
    if eng.decide(t.dict.has(q), "there"):
        v = entry_at(eng, rep, q)
        eng.prove(fields_equal(eng, v, FRef(t.fam, q)), "the same redirection")
        eng.prove(is_fresh(eng, v, t.fam), "of another object")
    eng.prove(table_content(eng, t.ref) is t.rep, "the original stays as it is")


# ---------------------------------------------------------------- running, and building on

@P.target("run: a copy is started, nothing of the value changes", spec=base_spec, functions=[PB + ".run"])
def _(eng):
    tables.install(eng.spec)
    e = env(eng)
    own, given = Table(eng, "E"), Table(eng, "G")
    eng.set_raw(e, "_redirects", own.ref)
    jobs = eng.new_list()
    eng.set_raw(e, "running_pipelines", jobs)
    cls = [CMD, PIPE, GROUP, CR, FN][eng.choose(5, "class")]
    at = {"_arg": eng.new_list()} if cls == CMD else {}
    obj = eng.new_obj(eng.cls(cls), _env=e, _started=VBool(False), **at)
    before = dict(eng.heap[obj.oid].attrs)
    copy = eng.new_obj(eng.cls(cls), _env=e, _started=VBool(False), **at)
    made, ran, started = [], [], []

    def dc(g, x):
        g.prove(g.same(x, obj), "the value is copied")
        made.append(1)
        return copy
    eng.spec.contracts[DC] = dc
    procs = eng.new_list()

    def run(g, p, table, sess, *a, **k):
        g.prove(g.same(p, copy), "the copy is started")
        ran.append(g.force(table))
        return procs
    for c in (PB, CMD, PIPE, GROUP, CR, FN):
        eng.spec.contracts[c + "._run"] = run
    RP = B_ + "running.RunningPipeline"

    def rp(g, p, ps, what):
        g.prove(z3.And(g.same(ps, procs), g.same(what, copy)), "its processes, and the copy")
        started.append(p)
        g.set_raw(p, "finished", VBool(fin))
        return NONE
    eng.spec.contracts[RP + ".__init__"] = rp
    fin = eng.fresh_bool("finished")
    how = eng.choose(3, "redirections")
    redirect = eng.new_obj(eng.cls(RD), fd=VInt(eng.fresh_int("fd")), source=VStr(eng.fresh_str("path")), flag=VInt(eng.fresh_int("flag")), mode=VInt(eng.fresh_int("mode")), pipe=NONE, borrowed=VBool(False))
    args = [[], [given.ref], [eng.new_list(Rope([Elems([redirect])]))]][how]
    r = eng.force(eng.call(eng.getattr(obj, "run"), args))
    eng.prove(len(made) == 1 and len(ran) == 1, "one copy, started once")
    eng.prove(len(started) == 1 and one(eng, r, started[0]), "what is running is returned")
    unchanged(eng, obj, before)
    t = ran[0]
    if how == 1:
        eng.prove(eng.same(t, given.ref), "with the redirections given")
    else:
        q = eng.fresh_int("k")
        rep = table_content(eng, t)
        mine = how == 2 and eng.decide(q == eng.force(eng.get_raw(redirect, "fd")).t, "the one given")
        if mine:
            v = entry_at(eng, rep, q)
            eng.prove(v is not None and fields_equal(eng, v, redirect), "a redirection given overrides the environment's")
        else:
            eng.prove(has_at(eng, rep, q) == own.dict.has(q), "the environment's redirections")
            if eng.decide(own.dict.has(q), "there"):
                v = entry_at(eng, rep, q)
                eng.prove(fields_equal(eng, v, FRef(own.fam, q)), "the environment's redirections")
                eng.prove(is_fresh(eng, v, own.fam), "copied")
    eng.prove(table_content(eng, own.ref) is own.rep, "the environment's redirections stay as they are")
    eng.prove(table_content(eng, given.ref) is given.rep, "those given as well")
    eng.prove(eng.same(eng.get_raw(e, "last_pipeline"), r), "the environment's last pipeline")
    js = models.iter_rope(eng, jobs).concrete()
    if eng.decide(fin, "finished"):
        eng.prove(not js, "not among those running")
    else:
        eng.prove(len(js) == 1 and one(eng, js[0], r), "among those running")


@P.target("arguments are added to a command of its own", spec=base_spec, functions=[BASE + ".__call__", BASE + ".__getattr__"])
def _(eng):
    e = env(eng)
    seq, f = items(eng)
    args = eng.new_list(Rope([Chunk(seq)]))
    obj = eng.new_obj(eng.cls(CMD), _env=e, _started=VBool(False), _arg=args, _running_process=NONE)
    before = dict(eng.heap[obj.oid].attrs)
    k = eng.choose(4, "how")
    x, y = opq(eng, "x"), opq(eng, "y")
    if k == 3:
        r = eng.getattr(obj, "status")
    else:
        r = eng.call(obj, [[], [x], [x, y]][k])
    r = eng.force(r)
    eng.prove(isinstance(r, Ref) and r.cls is obj.cls and fresh(eng, r, obj), "another command")
    eng.prove(eng.same(eng.get_raw(r, "_env"), e), "in the same environment")
    got = models.iter_rope(eng, eng.get_raw(r, "_arg"))
    more = [[], [x], [x, y], [VStr("status")]][k]
    eng.prove(got.length() == seq.n + len(more), "with one or more arguments more")
    i = eng.fresh_int("i")
    eng.assume(z3.And(i >= 0, i < seq.n))
    v = eng.force(models.index_rope(eng, got, i))
    eng.prove(isinstance(v, VOpaque) and v.t == f(i), "its arguments first, in order")
    for j, m in enumerate(more):
        eng.prove(eng.same(models.index_rope(eng, got, seq.n + j), m), "then those given")
    unchanged(eng, obj, before)
    rope = models.iter_rope(eng, args)
    eng.prove(rope.length() == seq.n, "the original's arguments stay as they are")

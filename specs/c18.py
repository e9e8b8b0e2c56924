"""C18 grouping of processes.

TreeGroup(children, level) is specified over an arbitrary finite sequence of
children with arbitrary key strings: F(s) is the first child whose name is s
(n if none), idx(t) the child whose identity is t."""
from pyvc.lib import *
from pyvc.spec import Property

P = Property("C18", trusted=[
    "slugify.slugify is a function of its arguments; its result contains no leading underscore",
    "str(id(x)) is different for different live objects",
    "dict iteration visits every key once",
])
T = "pieshell.tree.TreeGroup"
R = "pieshell.pipeline.running."
Z, SS = z3.IntSort(), z3.StringSort()
SLUG = z3.Function("slug", SS, SS)
DIGIT = z3.Range("0", "9")


def digit_first(t):
    return z3.InRe(t, z3.Concat(DIGIT, z3.Full(z3.ReSort(SS))))


def name_of(key):
    return z3.If(digit_first(SLUG(key)), z3.Concat(S("n"), SLUG(key)), SLUG(key))


def slugify(eng, text, separator=None, **kw):
    if kw or separator is None or models.sconst(eng.force(separator)) != "_":
        raise Unsupported("slugify with other arguments")
    return VStr(SLUG(eng.force(text).t))


class Kids(object):
    def __init__(self, eng, level):
        self.eng, self.level = eng, level
        self.childf = z3.Function("child", Z, U)
        self.idf = z3.Function("ident", Z, SS)
        self.keyf = z3.Function("key", Z, SS)
        self.idx = z3.Function("idx", SS, Z)
        self.F = z3.Function("first", SS, Z)
        self._child = {}
        self.seq = SymSeq(eng, "kids", at=self.child)
        self.n = self.seq.n
        eng.add_fact(self.seq, lambda j: eng.assume(z3.Implies(z3.And(j >= 0, j < self.n), z3.And(self.idx(self.idf(j)) == j, self.F(self.name(j)) <= j))))
        self.groups = Fam(eng, "group", eng.cls(T), {})
        self.outers, self.memo = {}, {}

    def name(self, j):
        return name_of(self.keyf(j))

    def child(self, i):
        k = str(i)
        if k not in self._child:
            def getkey(e, s, lv):
                lv = e.force(lv)
                if isinstance(lv, VNone):
                    return VStr(self.idf(i))
                e.prove(lv.t == self.level, "the key asked for is that of this level")
                return VStr(self.keyf(i))
            self._child[k] = VOpaque(self.childf(i), attrs=["_getkey"], label="child", methods={"_getkey": getkey})
        return self._child[k]

    def in_(self, s, t, i):
        """the child with identity t is one of the first i and has name s"""
        j = self.idx(t)
        return z3.And(j >= 0, j < i, self.name(j) == s)

    def firstfacts(self, s):
        return z3.And(self.F(s) >= 0, self.F(s) <= self.n, z3.Implies(self.F(s) < self.n, self.name(self.F(s)) == s))

    def idfacts(self, t):
        j = self.idx(t)
        return z3.And(j >= 0, j <= self.n, z3.Implies(j < self.n, self.idf(j) == t))

    def inner(self, s, i):
        """dict of the children named s among the first i"""
        eng = self.eng
        mem = self.memo.setdefault(str(i), [])
        for s0, ref in mem:
            if eng.decide(s0 == s, "same name"):
                return ref
        d = SymDict(eng, "inner", SS, lambda t: self.at(self.idx(t)), VStr, has=lambda t: self.in_(s, t, i))
        d.add_keyfact(lambda t: z3.Implies(d._has(t), self.idfacts(t)))
        d.add_keyfact(self.idfacts)
        d.kids = (s, i)
        eng.assume(self.firstfacts(s))
        d.touch_key(self.idf(self.F(s)))
        ref = eng.new_dict(DictRep(d))
        mem.append((s, ref))
        return ref

    def at(self, j):
        return self.seq.at(self.eng, j)

    def outer(self, i):
        k = str(i)
        if k not in self.outers:
            d = SymDict(self.eng, "names", SS, lambda s: self.inner(s, i), VStr, has=lambda s: self.F(s) < i)
            d.add_keyfact(self.firstfacts)
            self.outers[k] = d
        return self.outers[k]


class ByName(LoopSpec):
    """for child in children: after i children, one entry per name, holding
    the children of that name by identity."""

    def __init__(self, k):
        self.k = k

    def target(self, L):
        oids = [m[1] for m in L.mods if m[0] == "content" and m[1] < L.entry["next_oid"]]
        if len(oids) != 1:
            raise Unsupported("grouping loop updates %d containers" % len(oids))
        return oids[0]

    def havoc_assume(self, L):
        eng = L.eng
        if not any(m[0] == "content" for m in L.mods):
            return
        L.data["oid"] = self.target(L)
        eng.heap[L.data["oid"]].content = DictRep(self.k.outer(L.i))
        eng.extstate["grouped"] = L.data["oid"]

    def check(self, L, i):
        eng, k = L.eng, self.k
        if not any(m[0] == "content" for m in L.mods):
            return
        rep = eng.heap[self.target(L)].content
        s, t = eng.fresh_str("s"), eng.fresh_str("t")
        eng.assume(k.firstfacts(s))
        eng.assume(k.idfacts(t))
        k.at(k.idx(t))
        if not z3.is_int_value(i):
            eng.assume(k.firstfacts(k.name(i - 1)))
        h = dict_has(eng, rep, s)
        eng.prove(h == (k.F(s) < i), "grouping: exactly the names so far")
        if not eng.decide(h, "name present"):
            return
        v = eng.force(models.dict_find(eng, rep, VStr(s)))
        irep = models.dict_rep(eng, v)
        hi = dict_has(eng, irep, t)
        eng.prove(hi == k.in_(s, t, i), "grouping: exactly the children of that name so far")
        if eng.decide(hi, "child present"):
            eng.prove(eng.same(models.dict_find(eng, irep, VStr(t)), k.at(k.idx(t))), "grouping: the child itself")


def dict_has(eng, rep, s):
    return models.dict_has(eng, rep, VStr(s))


def correct(eng, k, s, v, name):
    """v is what the group must hold under name s."""
    v = eng.force(v)
    d = k.inner(s, k.n)
    base = models.dict_rep(eng, d).base
    if eng.decide(base.n == 1, "only one child of this name"):
        eng.prove(eng.same(v, k.at(k.F(s))), name + ": a group of one is that process")
        return
    if not isinstance(v, Ref) or not isinstance(eng.heap[v.oid].extra, tuple):
        eng.prove(False, name + ": a larger group is a group")
        return
    rope, level = eng.heap[v.oid].extra
    eng.prove(level == k.level + 1, name + ": divided by the next, more specific key")
    seg = rope.segs
    if len(seg) != 1 or not isinstance(seg[0], Chunk) or getattr(seg[0].seq, "dict", None) is None:
        raise Unsupported("contents of a group")
    sd = seg[0].seq.dict
    eng.prove(z3.And(seg[0].off == 0, seg[0].n == sd.n), name + ": all of them")
    t = eng.fresh_str("t")
    eng.assume(k.idfacts(t))
    h = sd.has(t)
    eng.prove(h == k.in_(s, t, k.n), name + ": exactly the processes with that name")
    if eng.decide(h, "member"):
        eng.prove(eng.same(sd.value(t), k.at(k.idx(t))), name + ": the process itself")


class Attach(LoopSpec):
    """for name, group in ...: every name visited has its process or group."""

    def __init__(self, k):
        self.k = k

    def target(self, L):
        oids = [m[1] for m in L.mods if m[0] == "content" and m[1] < L.entry["next_oid"]]
        if len(oids) != 1:
            raise Unsupported("loop over the names updates %d containers" % len(oids))
        return oids[0]

    def havoc_assume(self, L):
        k, eng = self.k, L.eng
        if not any(m[0] == "content" for m in L.mods):
            return
        src = k.outer(k.n)

        def value(s):
            d = models.dict_rep(eng, k.inner(s, k.n)).base
            if eng.decide(d.n == 1, "single"):
                return k.at(k.F(s))
            return FRef(k.groups, s)
        eng.heap[self.target(L)].content = DictRep(SymDict(
            eng, "kidsof", SS, value, VStr, has=lambda s: z3.And(k.F(s) < k.n, src.posf(s) < L.i)))
        L.data["pre"] = eng.heap[self.target(L)].content

    def check(self, L, i):
        k, eng = self.k, L.eng
        if not any(m[0] == "content" for m in L.mods):
            return
        src = k.outer(k.n)
        rep = eng.heap[self.target(L)].content
        s = eng.fresh_str("s")
        src.touch_key(s)
        eng.assume(k.firstfacts(s))
        h = dict_has(eng, rep, s)
        eng.prove(h == z3.And(k.F(s) < k.n, src.posf(s) < i), "attach: exactly the names visited so far")
        if not eng.decide(h, "visited"):
            return
        v = eng.force(models.dict_find(eng, rep, VStr(s)))
        if isinstance(v, FRef) and v.fam is k.groups:
            eng.prove(v.key == s, "attach: groups stay where they are")
            return
        correct(eng, k, s, v, "attach")


def spec():
    s = base_spec()
    s.ext["slugify.slugify"] = slugify
    return s


@P.target("TreeGroup: every process under its name, none lost, none twice", spec=spec, functions=[T + ".__init__", T + ".__getattr__"])
def _(eng):
    level = eng.fresh_int("level")
    eng.assume(level >= 0)
    k = Kids(eng, level)
    arg = eng.new_list(Rope([Chunk(k.seq)]))
    eng.spec.loops["kids"] = ByName(k)
    eng.spec.loops["names"] = Attach(k)

    def group(e, children, lv=None):
        o = e.alloc(e.cls(T))
        e.heap[o.oid].extra = (models.iter_rope(e, children), e.force(lv).t if lv is not None else I(0))
        return o
    o = eng.alloc(eng.cls(T))
    init = eng.getattr(o, "__init__")
    eng.spec.contracts[T] = group
    eng.call(init, [arg, VInt(level)])
    # every name of a child, and nothing else
    s = eng.fresh_str("name")
    k.outer(k.n).touch_key(s)
    try:
        v = eng.force(eng.getattr(o, "__getattr__") and eng.call(eng.getattr(o, "__getattr__"), [VStr(s)]))
    except PyExc as e:
        eng.prove(is_exc(eng, e, "AttributeError"), "unknown names are attribute errors")
        eng.prove(k.F(s) >= k.n, "every name of a process is an attribute")
        return
    eng.prove(k.F(s) < k.n, "every attribute is the name of a process")
    if isinstance(v, FRef) and v.fam is k.groups:
        eng.prove(v.key == s, "the group of that name")
        return
    correct(eng, k, s, v, "attribute")


@P.target("names never start with a digit", spec=spec, functions=[T + ".__init__"])
def _(eng):
    eng.prove(z3.Not(digit_first(name_of(eng.fresh_str("key")))), "a name does not start with a digit")


@P.target("TreeGroup: dir lists exactly the names", spec=spec, functions=[T + ".__dir__", T + ".__getattr__"])
def _(eng):
    f = z3.Function("kid", SS, U)
    d = SymDict(eng, "attrs", SS, lambda s: VOpaque(f(s)), VStr)
    o = eng.alloc(eng.cls(T))
    ks = eng.fresh_str("key")
    k = Kids(eng, I(0))
    # the attribute that holds the names is whatever __init__ assigns
    eng.call(eng.getattr(o, "__init__"), [eng.new_list(Rope([]))])
    at = [a for a in eng.heap[o.oid].attrs]
    if len(at) != 1:
        raise Unsupported("attributes of a group: %s" % at)
    eng.set_raw(o, at[0], eng.new_dict(DictRep(d)))
    ropes = models.iter_rope(eng, eng.call(eng.getattr(o, "__dir__"), []))
    if len(ropes.segs) != 1 or ropes.segs[0].seq is not d.keyseq:
        raise Unsupported("dir")
    try:
        v = eng.call(eng.getattr(o, "__getattr__"), [VStr(ks)])
    except PyExc as e:
        eng.prove(z3.And(is_exc(eng, e, "AttributeError"), z3.Not(d.has(ks))), "listed names are attributes")
        return
    eng.prove(d.has(ks), "attributes are listed")
    eng.prove(eng.same(v, VOpaque(f(ks))), "and are what the group holds")


def keyspec():
    s = spec()
    return s


@P.target("_getkey: identities at the end, distinct", spec=keyspec, functions=[
    R + "BaseRunningItem._getkey", R + "RunningItem._getkey", R + "RunningFunction._getkey", R + "RunningProcess._getkey"])
def _(eng):
    which = ["BaseRunningItem", "RunningItem", "RunningFunction", "RunningProcess"][eng.choose(4, "class")]
    C = eng.cls("pieshell.pipeline.command.Command")
    split = z3.Function("nwords", U, Z)
    cmd = eng.alloc(C if which == "RunningProcess" else eng.cls("pieshell.pipeline.function.Function"))
    words = SymSeq(eng, "words", at=lambda i: VStr(z3.Function("word", Z, SS)(i)))
    rest = SymSeq(eng, "rest", at=lambda i: VOpaque(z3.Function("restarg", Z, U)(i)))
    pre = eng.new_list(Rope([Chunk(words)]))
    suf = eng.new_list(Rope([Chunk(rest)]))
    eng.spec.contracts["pieshell.pipeline.command.BaseCommand._split_args"] = lambda e, s: VTuple([pre, suf])
    for c in ("command.BaseCommand", "function.Function", "base.Pipeline"):
        eng.spec.contracts["pieshell.pipeline.%s.__repr__" % c] = lambda e, s: VStr(z3.String("reprcmd"))
    eng.spec.contracts["pieshell.pipeline.function.Function._function_name"] = lambda e, s: VStr(z3.String("fname"))
    eng.spec.ext["split-symbolic"] = lambda e, o, name, a, kw: e.new_list(Rope([Elems([VStr(z3.String("head"))]), Elems([VStr(z3.String("last"))])]))
    o = eng.alloc(eng.cls(R + which))
    eng.set_raw(o, "cmd", cmd)
    eng.set_raw(o, "iohandler", NONE)
    eng.set_raw(o, "details", NONE)
    lv = eng.fresh_int("level")
    eng.assume(lv >= 0)
    ident = models.b_id(eng, o)
    ids = models.b_str(eng, ident)
    if eng.choose(2, "identity") == 0:
        v = eng.call(eng.getattr(o, "_getkey"), [NONE])
        eng.prove(eng.eq(v, ids), "the identity is str(id(process))")
        return
    v = eng.force(eng.call(eng.getattr(o, "_getkey"), [VInt(lv)]))
    eng.prove(isinstance(v, VStr), "a key is a string at every level")
    if isinstance(v, VStr):
        eng.prove(z3.Implies(lv >= 3, v.t == ids.t), "from level 3 on the key is the identity: the tree is finite")
    if which == "RunningProcess" and isinstance(v, VStr):
        w0 = z3.Function("word", Z, SS)(I(0))
        eng.prove(z3.Implies(z3.And(lv == 0, words.n > 0), v.t == w0), "the first key of a process is its program")

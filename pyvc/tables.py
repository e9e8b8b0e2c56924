"""Contracts of pieshell.redir.Redirects as functions of whole tables (proved
in specs/c04.py and specs/c06.py, used by the callers), the descriptors a
start accounts for, and the contract of a pipeline's _run."""
from .lib import *
from .engine import Unsupported, Infeasible

RS, RD = "pieshell.redir.Redirects", "pieshell.redir.Redirect"
PB = "pieshell.pipeline.base.Pipeline"
Z, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
CAPS = ("STRING", "TMP")


def inline(eng, cls, name, self, args, kw=None):
    f = eng.lookup_class(eng.cls(cls), name)[1]
    return eng.call_function(f, [self] + list(args), kw or {}, force_inline=True)


def is_table(eng, v):
    v = eng.force(v)
    return isinstance(v, Ref) and v.cls is eng.cls(RS)


def frozen(eng, rep, f):
    """field f of the entry at k, as it is now"""
    snap = eng.snapshot()

    def field(k):
        def get():
            v = entry_at(eng, rep, k)
            if v is None:
                raise Infeasible()
            return eng.getattr(v, f)
        return eng.with_snapshot(snap, get)
    return field


def derived(eng, rep, tag, **fields):
    """A table's content with new entries, field by field those of rep."""
    fs = {f: fields[f] if f in fields else frozen(eng, rep, f) for f in FIELDS}
    fam = Fam(eng, tag, eng.cls(RD), fs)
    d = SymDict(eng, tag, Z, lambda k: FRef(fam, k), lambda k: VInt(k), has=lambda k: models.dict_has(eng, rep, VInt(k)))
    d.fams = [(fam, d._has)]
    return DictRep(d)


def defer(eng, name, thunk):
    """a value worked out when it is looked at"""
    return VLazy(eng.fresh_name("later_" + name), [("", thunk)])


def fams(d):
    if d is None:
        return []
    if not hasattr(d, "fams"):
        raise Unsupported("table of unknown entries")
    return d.fams


def init(eng, self, *args, **kw):
    """a copy of every entry of the arguments, later ones overriding"""
    if any(isinstance(a, StarArg) for a in args):
        return inline(eng, RS, "__init__", self, args, kw)
    cur = DictRep(None, [])
    ref = eng.new_dict(cur)
    eng.set_raw(self, "redirects", ref)
    for a in args:
        if is_table(eng, a):
            rep = table_content(eng, eng.force(a))
            cur = eng.content(ref)
            new = derived(eng, rep, "copy")
            if cur.base is not None or cur.over:
                new = overridden(eng, cur, new)
            eng.set_content(ref, new)
        else:
            c = eng.call(VClass(eng.cls(RD)), [a])
            eng.call(eng.getattr(self, "register"), [c])
    return NONE


def overridden(eng, a, b):
    """entries of a where b has none"""
    d = SymDict(eng, "union", Z, None, lambda k: VInt(k), has=lambda k: z3.Or(models.dict_has(eng, a, VInt(k)), models.dict_has(eng, b, VInt(k))))

    def value(k):
        v = entry_at(eng, b, k)
        if v is None:
            v = entry_at(eng, a, k)
        if v is None:
            raise Infeasible()
        return v
    d._value = value
    d.fams = [(f, (lambda p: lambda k: z3.And(p(k), z3.Not(models.dict_has(eng, b, VInt(k)))))(p)) for f, p in fams(a.base)] + list(fams(b.base))
    d.refs = [v for k, v in a.over if v is not DictRep.DEL]
    if any(v is not DictRep.DEL for k, v in b.over):
        raise Unsupported("overridden by single entries")
    return DictRep(d)


def borrow(eng, self):
    """every entry becomes borrowed"""
    rep = table_content(eng, self)
    for k, v in rep.over:
        if v is not DictRep.DEL:
            eng.set_raw(v, "borrowed", VBool(True))
    b = rep.base
    if b is None:
        return NONE
    if getattr(b, "refs", None):
        raise Unsupported("borrowing a union")
    dead = [k for k, v in rep.over]
    for fam, pred in fams(b):
        eng.set_all(fam, lambda k, pred=pred: z3.And([pred(k)] + [k != eng.force(x).t for x in dead]), "borrowed", VBool(True))
    return NONE


def register(eng, self, r):
    if not is_table(eng, r):
        return inline(eng, RS, "register", self, [r])
    # the entries themselves
    rep = table_content(eng, eng.force(r))
    ref = eng.get_raw(self, "redirects")
    cur = eng.content(ref)
    if rep.over:
        raise Unsupported("registering a modified table")
    eng.set_content(ref, overridden(eng, cur, rep) if cur.base is not None or cur.over else rep)
    return self


class Ledger(object):
    """Descriptors (numbers) opened or handed over, each with what becomes of it."""

    def __init__(self, eng):
        self.eng = eng
        self.items = []          # [name, number, open]
        self.lent = []           # numbers that stay as they are

    def new(self, name, num, own=True):
        eng = self.eng
        num = z3.simplify(num)
        for n in [x[1] for x in self.items if x[2]] + self.lent:
            eng.assume(num != n)
        eng.assume(num >= 0)
        it = [name, num, True]
        if own:
            self.items.append(it)
        else:
            self.lent.append(num)
        return it

    def find(self, num):
        eng = self.eng
        num = z3.simplify(num)
        for it in self.items:
            if it[1].eq(num):
                return it
        for it in self.items:
            if it[2] and eng.decide(num == it[1], "the same descriptor"):
                return it
        return None

    def close(self, num):
        eng = self.eng
        it = self.find(num)
        if it is None:
            eng.prove(False, "closes only what it owns")
            raise PathEnd()
        eng.prove(it[2], "closes each descriptor once (%s)" % it[0])
        it[2] = False

    def open(self):
        return [it for it in self.items if it[2]]


def ledger(eng):
    if "ledger" not in eng.extstate:
        eng.extstate["ledger"] = Ledger(eng)
    return eng.extstate["ledger"]


def tracked(eng):
    return eng.extstate.setdefault("tracked", [])


def source_kind(eng, v):
    """int, name of the special class, or path"""
    v = eng.force(v)
    if isinstance(v, VInt):
        return "int"
    if isinstance(v, VClass):
        for n in ("PIPE", "STRING", "TMP"):
            if v.info is eng.cls("pieshell.redir." + n):
                return n
        raise Unsupported("source %r" % (v,))
    return "path"


def entry_fields(eng, rep, k):
    """Fields of the entry at k (None when there is none)."""
    v = entry_at(eng, rep, k)
    return None if v is None else {f: eng.getattr(v, f) for f in FIELDS}


def close_sources(eng, self):
    """closes the source of every entry that is a descriptor and not lent"""
    rep = table_content(eng, self)
    eng.extstate.setdefault("events", []).append("close")
    for k in tracked(eng):
        e = entry_fields(eng, rep, k)
        if e is None:
            continue
        if source_kind(eng, e["source"]) == "int" and not eng.decide(eng.truthy(e["borrowed"]), "borrowed"):
            ledger(eng).close(eng.force(e["source"]).t)
    return NONE


def makes(kinds):
    """contract of make_pipes / make_shared_pipes: entries whose source is of
    one of the kinds get a new source and the other end (or file) as pipe"""
    def contract(eng, self, exclude=None):
        rep = table_content(eng, self)
        out = [] if exclude is None else [eng.force(x) for x in models.iter_rope(eng, exclude).concrete()]
        if not all(isinstance(x, VInt) for x in out):
            raise Unsupported("excluded descriptors")
        tag = eng.fresh_name("made")
        src, pip = z3.Function(tag + "_src", Z, Z), z3.Function(tag + "_pipe", Z, Z)
        path = z3.Function(tag + "_path", Z, S)
        caps = {n: Fam(eng, tag + n, eng.cls("pieshell.redir." + n), {"kws": lambda k: eng.new_dict(DictRep(None, [(VStr("path"), VStr(path(k)))]))}) for n in CAPS}
        old = {f: frozen(eng, rep, f) for f in FIELDS}

        def kind(k):
            if any(eng.decide(k == x.t, "excluded") for x in out):
                return None
            return source_kind(eng, old["source"](k))

        def field(f, made):
            return lambda k: defer(eng, f, lambda: made(k) if kind(k) in kinds else old[f](k))
        new = derived(eng, rep, "made", source=field("source", lambda k: VInt(src(k))),
                      pipe=field("pipe", lambda k: VInt(pip(k)) if kind(k) == "PIPE" else FRef(caps[kind(k)], k)),
                      borrowed=field("borrowed", lambda k: VBool(False)))
        for k in tracked(eng):
            if entry_at(eng, rep, k) is None:
                continue
            c = kind(k)
            if c in kinds:
                w = ledger(eng).new("made source", src(k))
                if c == "PIPE":
                    ledger(eng).new("pipe end", pip(k))
        eng.extstate.setdefault("events", []).append("make")
        ref = eng.new_obj(eng.cls(RS), redirects=eng.new_dict(new))
        return ref
    return contract


def expose(eng, self, other):
    """entries of the other with an open end replace those here"""
    ref = eng.get_raw(self, "redirects")
    cur = eng.content(ref)
    rep = table_content(eng, other)
    copy = derived(eng, rep, "exposed")
    pipe = frozen(eng, rep, "pipe")
    h = z3.Function(eng.fresh_name("exposed"), Z, B)

    def value(k):
        if eng.decide(models.dict_has(eng, rep, VInt(k)), "there"):
            if isinstance(eng.force(pipe(k)), VInt):
                eng.assume(h(k))
                return entry_at(eng, copy, k)
        v = entry_at(eng, cur, k)
        if v is None:
            raise Infeasible()
        return v
    d = SymDict(eng, "exposing", Z, value, lambda k: VInt(k), has=lambda k: z3.Or(models.dict_has(eng, cur, VInt(k)), z3.And(h(k), models.dict_has(eng, rep, VInt(k)))))
    eng.set_content(ref, DictRep(d))
    return NONE


class Part(object):
    """A part of a pipeline, known by the contract of _run only: it closes
    the descriptors handed over, exposes the other end of every pipe asked
    for, and its processes are started in order."""

    def __init__(self, eng, name, track=None, **attrs):
        self.eng, self.name, self.track = eng, name, track
        self.ref = eng.new_obj(eng.cls(PB), _env=NONE, _started=VBool(False), **attrs)
        self.runs = []
        self.fam = Fam(eng, "proc_" + name, eng.cls("pieshell.pipeline.running.RunningItem"), {})
        self.seq = SymSeq(eng, "procs_" + name, at=lambda i: FRef(self.fam, i))
        self.given = None

    def keys(self):
        return tracked(self.eng) if self.track is None else self.track

    def run(self, eng, table, sess, indentation=None):
        rep = table_content(eng, eng.force(table))
        self.runs.append(rep)
        eng.extstate.setdefault("events", []).append(("run", self.name))
        eng.prove(len(self.runs) == 1, "every part is started once")
        self.given = {f: frozen(eng, rep, f) for f in FIELDS}
        self.table = table
        for j in range(3):
            eng.prove(models.dict_has(eng, rep, VInt(j)), "standard input, output and error are there for every part")
        tag = eng.fresh_name("R" + self.name)
        src, pip = z3.Function(tag + "_src", Z, Z), z3.Function(tag + "_exposed", Z, Z)
        path, more = z3.Function(tag + "_path", Z, S), z3.Function(tag + "_has", Z, B)
        caps = {n: Fam(eng, tag + n, eng.cls("pieshell.redir." + n), {"kws": lambda k: eng.new_dict(DictRep(None, [(VStr("path"), VStr(path(k)))]))}) for n in CAPS}
        self.exposed = {}
        self._else = z3.Function(tag + "_elsewhere", Z, B)
        given = self.given

        def pipe(k):
            if not eng.decide(models.dict_has(eng, rep, VInt(k)), "given"):
                return NONE
            c = source_kind(eng, given["source"](k))
            if (c == "PIPE" or isinstance(eng.force(given["pipe"](k)), VInt)) and self.elsewhere(k):
                return FRef(caps["STRING"], k) if eng.decide(z3.Function(tag + "_capt", Z, B)(k), "captured") else NONE
            if c == "PIPE":
                self.expose(k, pip)
                return VInt(pip(k))
            if c in CAPS:
                return FRef(caps[c], k)
            return given["pipe"](k)
        self.pipe = pipe
        lazy = lambda k: defer(eng, "pipe", lambda: pipe(k))
        isint = z3.Function(tag + "_int", Z, B)
        fl, mo, bo = z3.Function(tag + "_flag", Z, Z), z3.Function(tag + "_mode", Z, Z), z3.Function(tag + "_borrowed", Z, B)
        spath = z3.Function(tag + "_spath", Z, S)
        fam = Fam(eng, tag, eng.cls(RD), {
            "fd": lambda k: VInt(k), "pipe": lazy, "flag": lambda k: VInt(fl(k)), "mode": lambda k: VInt(mo(k)), "borrowed": lambda k: VBool(bo(k)),
            "source": lambda k: VCase([(isint(k), lambda: VInt(src(k))), (z3.BoolVal(True), lambda: VStr(spath(k)))])})
        d = SymDict(eng, tag, Z, lambda k: FRef(fam, k), lambda k: VInt(k), has=lambda k: z3.Or(models.dict_has(eng, rep, VInt(k)), more(k)))
        d.fams = [(fam, d._has)]
        self.R = eng.new_obj(eng.cls(RS), redirects=eng.new_dict(DictRep(d)))
        self.Rrep = DictRep(d)
        for k in self.keys():
            e = entry_fields(eng, rep, k)
            if e is None:
                continue
            c = source_kind(eng, e["source"])
            if c == "int" and not eng.decide(eng.truthy(e["borrowed"]), "borrowed"):
                ledger(eng).close(eng.force(e["source"]).t)
            if c == "PIPE":
                eng.prove(not isinstance(eng.force(e["pipe"]), VInt), "a pipe yet to be made has no other end")
            if c == "PIPE" and not self.elsewhere(k):
                self.expose(k, pip)
        eng.set_raw(self.ref, "_redirects", self.R)
        return eng.new_list(Rope([Chunk(self.seq)]))

    def elsewhere(self, k):
        """the part redirects this descriptor of its own"""
        return self.eng.decide(self._else(k), self.name + " redirects it elsewhere")

    def expose(self, k, pip):
        s = str(z3.simplify(k))
        if s not in self.exposed:
            self.exposed[s] = ledger(self.eng).new("exposed by " + self.name, pip(k))
        return self.exposed[s]


def parts(eng, *ps):
    """Install the contract for these parts."""
    def run(e, self, *a, **k):
        for p in ps:
            if e.identical_syn(e.force(self), p.ref):
                return p.run(e, *a, **k)
        raise Unsupported("another part is run")
    eng.spec.contracts[PB + "._run"] = lambda e, self, *a, **k: (
        run(e, self, *a, **k) if any(e.identical_syn(e.force(self), p.ref) for p in ps) else inline(e, PB, "_run", self, a, k))


def install(s):
    s.contracts[RS + ".__init__"] = init
    s.contracts[RS + ".borrow"] = borrow
    s.contracts[RS + ".register"] = register
    s.contracts[RS + ".close_source_fds"] = close_sources
    s.contracts[RS + ".make_pipes"] = makes(("PIPE", "STRING", "TMP"))
    s.contracts[RS + ".make_shared_pipes"] = makes(("PIPE",))
    s.contracts[RS + ".expose_pipes"] = expose
    s.ext["os.close"] = lambda eng, fd: (ledger(eng).close(eng.force(fd).t), NONE)[1]
    s.contracts[PB + ".__repr__"] = lambda e, p: VStr(e.fresh_str("repr"))
    s.contracts["pieshell.pipeline.base.pipeline_repr"] = lambda eng, o: VStr(eng.fresh_str("repr"))
    return s

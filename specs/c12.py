"""C12 captured output."""
from pyvc.lib import *
from pyvc import aio
from pyvc.engine import Unsupported
from pyvc.spec import Property
from specs import c10
from specs.c10 import W, Each, RP, RI, BI, R, PB, BB, PHASES

P = Property("C12", trusted=[
    "open(path) reads what the file holds, as text; while a pipeline's completion runs nobody else changes the capture files",
    "os.unlink(path) removes that file or raises FileNotFoundError when there is none",
    "a process's table is the one it was started with, string and temporary-file captures naming their file (C04, C05, C09)",
])
RS, RD = "pieshell.redir.Redirects", "pieshell.redir.Redirect"
Z, S, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
CONTENT = z3.Function("file_content", S, S)     # what a file holds, as text, what cannot be decoded replaced


def spec():
    s = c10.spec()
    s.ext["builtins.open"] = opened
    return s


def opened(eng, path, mode=None, buffering=None, encoding=None, errors=None, newline=None, **kw):
    """reading: the whole text; undecodable bytes fail unless they are replaced"""
    m = "r" if mode is None else eng.force(mode).t.as_string()
    eng.prove(not set(m) & set("wax+"), "a capture is only read")
    if "b" in m:
        raise Unsupported("captures read as bytes")
    p = eng.force(path)
    eng.prove(isinstance(p, VStr), "a path")
    er = None if errors is None or isinstance(eng.force(errors), VNone) else eng.force(errors).t.as_string()
    log = eng.extstate.setdefault("files", [])
    log.append(("open", p.t))
    data = {}

    def read(e, f, n=None):
        if n is not None and not (isinstance(e.force(n), VNone) or e.decide(e.force(n).t < 0, "all")):
            raise Unsupported("partial reads")
        e.prove(not data.get("read") and not data.get("closed"), "read once, while open")
        data["read"] = True
        if er in (None, "strict") and e.decide(z3.Function("undecodable", S, B)(p.t), "undecodable"):
            e.raise_py("UnicodeDecodeError")
        if er in ("ignore",):
            return VStr(z3.Function("file_content_ignoring", S, S)(p.t))
        return VStr(CONTENT(p.t))

    def close(e, f, *a):
        data["closed"] = True
        log.append(("close", p.t))
        return NONE
    f = VOpaque(eng.fresh_u("file"), label="file", types=["?"], methods={
        "read": read, "close": close, "__enter__": lambda e, f: f, "__exit__": lambda e, f, x: (close(e, f), False)[1]})
    return f


class It(object):
    """A process with any table of redirections."""

    def __init__(self, eng, cls=RI):
        self.eng = eng
        self.t = t = Table(eng, "A")
        self.cmd = eng.new_obj(eng.cls(PB), _redirects=t.ref)
        self.io = VOpaque(eng.fresh_u("iohandler"), label="iohandler", types=["?"], methods={})
        self.out = eng.new_dict(DictRep(None, []))
        self.it = eng.new_obj(eng.cls(cls), cmd=self.cmd, iohandler=self.io, output_content=self.out, details=NONE)

    def string(self, k):
        return self.t.pkind(k) == 2

    def tmp(self, k):
        """temporary files that are kept"""
        return self.t.pkind(k) == 3

    def path(self, k):
        return self.t.ppath(k)

    def unchanged(self):
        self.eng.prove(table_content(self.eng, self.t.ref) is self.t.rep, "the redirections stay")


class Build(LoopSpec):
    """a dictionary is built: after i descriptors it has an entry exactly for those of them that qualify"""

    def __init__(self, x, want, value, same):
        self.x, self.want, self.value, self.eqv = x, want, value, same

    def dicts(self, L):
        return [m[1] for m in sorted(L.mods, key=str) if m[0] == "content" and m[1] in L.entry["heap"] and isinstance(L.entry["heap"][m[1]].content, DictRep)]

    def havoc_assume(self, L):
        eng, x = L.eng, self.x
        i = L.i
        for oid in self.dicts(L):
            d = SymDict(eng, "built", Z, self.value, lambda k: VInt(k),
                        has=lambda k: z3.And(x.t.dict.has(k), self.want(k), x.t.dict.posf(k) < i))
            eng.heap[oid].content = DictRep(d)

    def check(self, L, i):
        eng, x = L.eng, self.x
        for oid in self.dicts(L):
            rep = eng.heap[oid].content
            if z3.is_int_value(i) and i.as_long() == 0:
                eng.prove(rep.base is None and not rep.over, "nothing there at first")
                continue
            agree(eng, x, rep, lambda q: z3.And(self.want(q), x.t.dict.posf(q) < i), self.eqv)


def agree(eng, x, rep, want, eqv):
    q = eng.fresh_int("q")
    has = models.dict_has(eng, rep, VInt(q))
    w = z3.And(x.t.dict.has(q), want(q))
    if eng.decide(w, "wanted"):
        eng.prove(has, "there for every such descriptor")
        v = models.dict_find(eng, rep, VInt(q))
        if v is not None:
            eng.prove(eqv(v, q), "its own")
    else:
        eng.prove(z3.Not(has), "for no other descriptor")


@P.target("collecting: for every descriptor captured as a string, the whole content of its file", spec=spec, functions=[RI + ".handle_pipeline_finish", "pieshell.redir.SpecialRedirect.__getattr__"])
def _(eng):
    x = It(eng, [RI, R + "RunningFunction", R + "RunningProcess"][eng.choose(3, "class")])
    unl = unlinks(eng)
    value = lambda k: VStr(CONTENT(x.path(k)))
    eqv = lambda v, q: eng.eq(v, value(q))
    eng.spec.loops["A"] = Build(x, x.string, value, eqv)
    try:
        eng.call(eng.getattr(x.it, "handle_pipeline_finish"), [])
    except PyExc as e:
        eng.prove(False, "collecting never fails")
        return
    agree(eng, x, models.dict_rep(eng, eng.getattr(x.it, "output_content")), x.string, eqv)
    eng.prove(not unl, "nothing is removed")
    x.unchanged()


def unlinks(eng):
    log = []

    def unlink(e, p, *a, **k):
        log.append(e.force(p))
        if e.decide(e.fresh_bool("missing"), "missing"):
            e.raise_py("FileNotFoundError")
        return NONE
    eng.spec.ext["os.unlink"] = unlink
    eng.spec.ext["os.remove"] = unlink
    return log


class EachFd(LoopSpec):
    """per descriptor: its file is removed exactly if it qualifies"""

    def __init__(self, x, want, log, path):
        self.x, self.want, self.log, self.path = x, want, log, path

    def havoc_assume(self, L):
        del self.log[:]
        if L.i is L.n:
            L.eng.extstate["all"] = True

    def check(self, L, i):
        eng = L.eng
        if z3.is_int_value(i) and i.as_long() == 0:
            eng.prove(not self.log, "nothing removed before")
            return
        k = key_of(eng, self.x, L, L.i)
        if eng.decide(self.want(k), "wanted"):
            eng.prove(len(self.log) == 1, "its file is removed, once")
            for p in self.log:
                eng.prove(eng.same(p, VStr(self.path(k))), "that file")
        else:
            eng.prove(not self.log, "no other file is removed")
        del self.log[:]


def key_of(eng, x, L, i):
    return x.t.dict.key_at(i)


@P.target("cleaning up: the file of every string capture is removed, nothing else, missing or not", spec=spec, functions=[RI + ".handle_pipeline_finish_destructive"])
def _(eng):
    x = It(eng, [RI, R + "RunningFunction", R + "RunningProcess"][eng.choose(3, "class")])
    log = unlinks(eng)
    eng.spec.loops["A"] = EachFd(x, x.string, log, x.path)
    try:
        eng.call(eng.getattr(x.it, "handle_pipeline_finish_destructive"), [])
    except PyExc as e:
        eng.prove(False, "a file already removed by another process is no failure")
        return
    if not eng.decide(x.t.dict.n == 0, "empty"):
        eng.prove(bool(eng.extstate.get("all")), "every descriptor is looked at")
    eng.prove(not log, "nothing else is removed")
    eng.prove(eng.content(x.out) is not None and not eng.content(x.out).over and eng.content(x.out).base is None, "what was collected stays")
    x.unchanged()


@P.target("output_files: exactly the temporary files that are kept, by descriptor", spec=spec, functions=[RI + ".output_files"])
def _(eng):
    x = It(eng, [RI, R + "RunningFunction", R + "RunningProcess"][eng.choose(3, "class")])
    log = unlinks(eng)
    value = lambda k: FRef(x.t.tmpfam, k)

    def eqv(v, q):
        v = eng.force(v)
        if not (isinstance(v, FRef) and v.fam is x.t.tmpfam):
            return z3.BoolVal(False)
        return v.key == q
    eng.spec.loops["A"] = Build(x, x.tmp, value, eqv)
    r = eng.getattr(x.it, "output_files")
    agree(eng, x, models.dict_rep(eng, r), x.tmp, eqv)
    k = eng.fresh_int("k")
    eng.prove(eng.same(eng.getattr(FRef(x.t.tmpfam, k), "path"), VStr(x.path(k))), "the capture names its file")
    eng.prove(not log, "nothing is removed")
    x.unchanged()


@P.target("remove_output_files of a process: exactly those, shared or not", spec=spec, functions=[BI + ".remove_output_files"])
def _(eng):
    x = It(eng, [RI, R + "RunningFunction", R + "RunningProcess"][eng.choose(3, "class")])
    log = unlinks(eng)
    files = SymDict(eng, "files", Z, lambda k: FRef(x.t.tmpfam, k), lambda k: VInt(k))
    eng.spec.contracts[RI + ".output_files"] = lambda e, p: e.new_dict(DictRep(files))
    loop = EachFd(x, lambda k: z3.BoolVal(True), log, x.path)
    loop.x = type("F", (), {"t": type("T", (), {"dict": files})})
    eng.spec.loops["files"] = loop
    try:
        eng.call(eng.getattr(x.it, "remove_output_files"), [])
    except PyExc as e:
        eng.prove(False, "a file shared with another process is no failure")
        return
    if not eng.decide(files.n == 0, "empty"):
        eng.prove(bool(eng.extstate.get("all")), "every file")
    eng.prove(not log, "nothing else")


@P.target("remove_output_files of a pipeline: of every process, once", spec=spec, functions=[RP + ".remove_output_files"])
def _(eng):
    w = W(eng).by_contract()
    rp = w.running_pipeline()
    log = unlinks(eng)
    eng.spec.loops["procs"] = Each(w, ["remove_output_files"])
    eng.call(eng.getattr(rp, "remove_output_files"), [])
    if not eng.decide(w.n == 0, "no process"):
        eng.prove(eng.extstate.get("passes", 0) == 1, "every process")
    eng.prove(not w.calls and not log, "once, and nothing else")


@P.target("other items have no captures", spec=spec, functions=[BI + ".handle_pipeline_finish", BI + ".handle_pipeline_finish_destructive", BI + ".remove_output_files"])
def _(eng):
    log = unlinks(eng)
    it = eng.new_obj(eng.cls([BI, BB + "RunnningFg"][eng.choose(2, "class")]))
    for m in ("handle_pipeline_finish", "handle_pipeline_finish_destructive", "remove_output_files"):
        eng.call(eng.getattr(it, m), [])
    eng.prove(not log, "nothing is removed")
    eng.prove(eng.decide(models.dict_rep(eng, eng.getattr(it, "output_files")).base is None, "no files") and not models.dict_rep(eng, eng.getattr(it, "output_files")).over, "no output files")


@P.target("completion: everything is collected before anything is removed, each once", spec=spec, functions=[RP + ".handle_finish"])
def _(eng):
    w = W(eng).by_contract()
    rp = w.running_pipeline()
    log = unlinks(eng)
    eng.spec.loops["procs"] = Each(w, PHASES)
    eng.call(eng.getattr(rp, "handle_finish"), [])
    passes = eng.extstate.get("passes", 0)
    if eng.decide(z3.And(z3.Not(w.any_running()), z3.Not(w.finished0)), "completion due"):
        if not eng.decide(w.n == 0, "no process"):
            eng.prove(passes == 2, "every process collects, then every process cleans up")
    else:
        eng.prove(passes == 0, "not while a process runs, and not again")
    eng.prove(not log and not w.calls, "nothing else is removed")


@P.target("a new item has collected nothing; each its own", spec=spec, functions=[RI + ".__init__"])
def _(eng):
    x = It(eng)
    its = []
    for i in range(2):
        it = eng.force(eng.call(VClass(eng.cls([RI, R + "RunningFunction"][eng.choose(2, "class")])), [x.cmd, x.io]))
        its.append(eng.force(eng.getattr(it, "output_content")))
    for d in its:
        rep = models.dict_rep(eng, d)
        eng.prove(rep.base is None and not rep.over, "nothing collected yet")
    eng.prove(its[0].oid != its[1].oid, "not shared")


P.mods = ["running", "redir"]

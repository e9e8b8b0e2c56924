"""Symbolic initial states shared by the property specifications."""
import z3

from .values import *
from .engine import Spec, Engine, LoopSpec, LoopCtx, PyExc, PathEnd, ClassInfo, Infeasible, StarArg
from . import models


def base_spec():
    s = Spec()
    s.contracts["pieshell.log.log"] = lambda eng, *a, **k: NONE
    for c in ("pieshell.redir.Redirects", "pieshell.redir.Redirect"):
        s.contracts[c + ".__repr__"] = lambda eng, self: VStr(eng.fresh_str("repr"))
    s.globals["pieshell.redir.MAXFD"] = lambda eng: VInt(maxfd(eng))
    s.contracts["pieshell.iterio.events_to_str"] = lambda eng, e: VStr(eng.fresh_str("events"))
    for k in ("match", "fullmatch", "search"):
        s.ext["re." + k] = re_fn(k)
    return s


def re_fn(kind):
    """re.match and its like for a constant pattern."""
    def h(eng, pattern, text, flags=None):
        from . import rx
        pattern, text = eng.force(pattern), eng.force(text)
        if not isinstance(text, (VStr, VBytes)) or type(text) is not type(pattern):
            eng.raise_py("TypeError", "expected string or bytes-like object")
        p = models.sconst(pattern)
        fl = 0 if flags is None else z3.simplify(eng.force(flags).t).as_long()
        if p is None:
            raise Unsupported("regular expression that is not constant")
        if eng.decide(rx.matches(p, text.t, kind, fl), "%s %s" % (kind, p)):
            return VOpaque(eng.fresh_u("match"), types=["re.Match"], label="match", methods={"__bool__": lambda e, s: VBool(True)})
        return NONE
    return h


def maxfd(eng):
    if "maxfd" not in eng.extstate:
        eng.extstate["maxfd"] = m = z3.Int("MAXFD")
        eng.assume(m > 3)
    return eng.extstate["maxfd"]


def now(eng, v):
    """a value put off is worked out, without looking into it"""
    while isinstance(v, VLazy) and (len(v.alts) == 1 or v.name in eng.lazy):
        if v.name not in eng.lazy:
            eng.lazy[v.name] = (v.alts[0][0], v.alts[0][1]())
        v = eng.lazy[v.name][1]
    return v


def same_val(eng, a, b):
    """Term: a and b are the same value (identity for objects)."""
    a, b = now(eng, a), now(eng, b)
    if isinstance(a, VCase):
        return z3.BoolVal(True) if a is b else models.case_bool(a, lambda x: same_val(eng, x, b))
    if isinstance(b, VCase):
        return models.case_bool(b, lambda x: same_val(eng, a, x))
    a, b = eng.force(a), eng.force(b)
    if isinstance(a, (Ref, FRef, VClass, VExt, VFunc, VNative)) or isinstance(b, (Ref, FRef, VClass, VExt, VFunc, VNative)):
        return eng.same(a, b)
    return eng.eq(a, b)


class Table(object):
    """A Redirects object with an arbitrary finite table (dict fd -> Redirect),
    class invariant: table[k].fd == k and the source is never None."""

    def __init__(self, eng, tag, borrowed=None, kinds=("int", "str", "PIPE", "TMP", "STRING", "path"), extra=None):
        self.eng = eng
        self.tag = tag
        R = eng.cls("pieshell.redir.Redirect")
        B = z3.BoolSort()
        Z = z3.IntSort()
        nm = eng.fresh_name("tab_" + tag)
        f = lambda n, s: z3.Function("%s_%s" % (nm, n), Z, s)
        self.kind, self.isrc, self.ssrc, self.osrc = f("kind", Z), f("isrc", Z), f("ssrc", z3.StringSort()), f("osrc", U)
        self.flag, self.mode, self.bor = f("flag", Z), f("mode", Z), f("borrowed", B)
        self.pkind, self.pint, self.ppath = f("pkind", Z), f("pint", Z), f("ppath", z3.StringSort())
        self.kinds = kinds
        mk = {
            "int": lambda k: VInt(self.isrc(k)),
            "str": lambda k: VStr(self.ssrc(k)),
            "PIPE": lambda k: VClass(eng.cls("pieshell.redir.PIPE")),
            "TMP": lambda k: VClass(eng.cls("pieshell.redir.TMP")),
            "STRING": lambda k: VClass(eng.cls("pieshell.redir.STRING")),
            "path": lambda k: VOpaque(self.osrc(k), types=["pathlib.PurePath"], label="path"),
        }
        self._src = {}

        def source(k):
            return VCase([(self.kind(k) == j, (lambda n=n: mk[n](k))) for j, n in enumerate(kinds)])

        def pipe(k):
            return VCase([(self.pkind(k) == 0, lambda: NONE), (self.pkind(k) == 1, lambda: VInt(self.pint(k))),
                          (self.pkind(k) == 2, lambda: FRef(self.strfam, k)),
                          (z3.BoolVal(True), lambda: FRef(self.tmpfam, k))])

        def kws(k):
            return eng.new_dict(DictRep(None, [(VStr("path"), VStr(self.ppath(k)))]))
        # capture files: instances of STRING / TMP with a path
        self.strfam = Fam(eng, tag + "_str", eng.cls("pieshell.redir.STRING"), {"kws": kws})
        self.tmpfam = Fam(eng, tag + "_tmp", eng.cls("pieshell.redir.TMP"), {"kws": kws})
        self.fam = Fam(eng, tag, R, {
            "fd": lambda k: VInt(k), "source": source, "flag": lambda k: VInt(self.flag(k)),
            "mode": lambda k: VInt(self.mode(k)), "pipe": pipe,
            "borrowed": (lambda k: VBool(self.bor(k))) if borrowed is None else (lambda k: VBool(borrowed)),
        })
        self.dict = SymDict(eng, tag, Z, lambda k: FRef(self.fam, k), lambda k: VInt(k))
        self.dict.add_keyfact(lambda k: z3.Implies(self.dict._has(k), z3.And(k >= 0, self.kind(k) >= 0, self.kind(k) < len(kinds),
                                                                          self.flag(k) >= 0, self.pkind(k) >= 0, self.pkind(k) <= 3)))
        if "int" in kinds:
            j = kinds.index("int")
            self.dict.add_keyfact(lambda k: z3.Implies(z3.And(self.dict._has(k), self.kind(k) == j), self.isrc(k) >= 0))
        self.rep = DictRep(self.dict)
        self.dref = eng.new_dict(self.rep)
        self.ref = eng.new_obj(eng.cls("pieshell.redir.Redirects"), redirects=self.dref)

FIELDS = ("fd", "source", "flag", "mode", "pipe", "borrowed")


def table_content(eng, ref):
    """DictRep of a Redirects object."""
    d = eng.get_raw(ref, "redirects")
    return eng.content(d)


def entry(eng, ref, k):
    """Redirect for fd term k in a Redirects object (None if absent; forks)."""
    return models.dict_find(eng, table_content(eng, ref), VInt(k))


def fields(eng, r):
    return {f: eng.getattr(r, f) for f in FIELDS}


def fields_equal(eng, a, b, skip=()):
    t = []
    for f in FIELDS:
        if f in skip:
            continue
        t.append(same_val(eng, eng.getattr(a, f), eng.getattr(b, f)))
    return z3.And(t)


# ------------------------------------------------------------ proof helpers

def entry_at(eng, rep, q):
    """Object stored at key term q in a DictRep (None when absent); forks."""
    return models.dict_find(eng, rep, VInt(q))


def has_at(eng, rep, q):
    return models.dict_has(eng, rep, VInt(q))


def is_fresh(eng, v, *fams):
    """v is an object allocated by the code under verification: not a member
    of any of the given input families."""
    v = eng.force(v)
    if isinstance(v, Ref):
        return True
    return isinstance(v, FRef) and v.fam not in fams


def forget_dicts(L):
    """Dictionaries updated by a loop about which nothing needs to be known
    (debug output)."""
    eng = L.eng
    for m in L.mods:
        if m[0] == "content" and isinstance(L.entry["heap"][m[1]].content, DictRep):
            eng.heap[m[1]].content = DictRep(SymDict(eng, "forgotten", z3.IntSort(), lambda k: VPoison("forgotten"), lambda k: VInt(k)))


class CopyLoop(LoopSpec):
    """Loop over the values of src (a SymDict of Redirects) that stores a copy
    of each under its fd in one dict, last write wins."""

    def __init__(self, eng, src, fresh=True, name="copy", fieldfn=None, only=None):
        """only(k): the entries that are copied (all)"""
        self.eng, self.src, self.fresh, self.name = eng, src, fresh, name
        self.only = only or (lambda k: z3.BoolVal(True))
        self.fieldfn = fieldfn

    def _target(self, L):
        oids = [m[1] for m in L.mods if m[0] == "content"]
        if len(oids) > 1:
            raise Unsupported("loop over %s updates several containers" % L.chunk.tag)
        return oids[0] if oids else None

    def expected(self, L, i):
        """(has, value) of the target after i iterations."""
        eng, src = self.eng, self.src
        oid = self._target(L)
        pre = L.entry["heap"][oid].content
        inn = lambda k: z3.And(src.has(k), src.posf(k) < i, self.only(k))
        return pre, inn

    def copies(self, L):
        if "fam" not in L.data:
            eng, src = self.eng, self.src

            def fld(f):
                if self.fieldfn and f in self.fieldfn:
                    return self.fieldfn[f]
                return lambda k: eng.with_snapshot(L.entry, lambda: eng.getattr(src.value(k), f))
            L.data["fam"] = Fam(eng, "copy_" + src.tag, eng.cls("pieshell.redir.Redirect"),
                                {f: fld(f) for f in FIELDS})
        return L.data["fam"]

    def havoc_assume(self, L):
        eng, src = self.eng, self.src
        oid = self._target(L)
        if oid is None:
            return
        pre, inn = self.expected(L, L.i)
        i = L.i
        fam = self.copies(L) if self.fresh else None

        def has(k):
            return z3.Or(models.dict_has(eng, pre, src.keywrap(k)), z3.And(src._has(k), src.posf(k) < i, self.only(k)))

        def value(k):
            if eng.decide(inn(k), "copied"):
                return FRef(fam, k) if self.fresh else src.value(k)
            v = models.dict_find(eng, pre, src.keywrap(k))
            if v is None:
                raise Infeasible()
            return v
        d = SymDict(eng, src.tag + ".dst", src.keysort, value, src.keywrap, has=lambda k: has(k))
        eng.heap[oid].content = DictRep(d)

    def check(self, L, i):
        eng, src = self.eng, self.src
        oid = self._target(L)
        if oid is None:
            return
        pre, inn = self.expected(L, i)
        q = eng.fresh_int("q")
        cur = eng.heap[oid].content
        nm = "loop over %s" % src.tag
        h = has_at(eng, cur, q)
        src.touch_key(q)
        eng.prove(h == z3.Or(has_at(eng, pre, q), inn(q)), nm + ": keys so far")
        if not eng.decide(h, "present"):
            return
        v = entry_at(eng, cur, q)
        if eng.decide(inn(q), "already copied"):
            want = src.value(q)
            if self.fresh:
                eng.prove(is_fresh(eng, v, want.fam), nm + ": entries are new objects")
                eng.prove(self.copied(L, v, q), nm + ": fields copied")
            else:
                eng.prove(eng.same(v, want), nm + ": entries stored")
        else:
            w = models.dict_find(eng, pre, VInt(q))
            eng.prove(w is not None and eng.same(v, w), nm + ": other entries untouched")

    def copied(self, L, v, q):
        eng = self.eng
        if self.fieldfn is None:
            want = self.src.value(q)
            return fields_equal(eng, v, want)
        ref = FRef(self.copies(L), q)
        return fields_equal(eng, v, ref)


def prove_same_table(eng, rep, rep0, q, name, fam0=None):
    """rep has the same entry (identity and fields as at entry) as rep0 at q."""
    h = has_at(eng, rep, q)
    eng.prove(h == has_at(eng, rep0, q), name + ": same keys")


# ------------------------------------------------- descriptor table of a process

class Kern(object):
    """State of a process' descriptor table, as functions of the number:
    open?, what it refers to (U), inherited across exec?  Immutable."""

    def __init__(self, opn, desc, inh):
        self.opn, self.desc, self.inh = opn, desc, inh

    def update(self, fd, opn=None, desc=None, inh=None):
        def up(f, v):
            return f if v is None else (lambda k: z3.If(k == fd, v, f(k)))
        return Kern(up(self.opn, opn), up(self.desc, desc), up(self.inh, inh))


def kern_fresh(eng, tag="K"):
    nm = eng.fresh_name(tag)
    o = z3.Function(nm + "_open", z3.IntSort(), z3.BoolSort())
    d = z3.Function(nm + "_desc", z3.IntSort(), U)
    h = z3.Function(nm + "_inh", z3.IntSort(), z3.BoolSort())
    return Kern(o, d, h)


def kern(eng):
    k = eng.ghost.get("kern")
    if not isinstance(k, Kern):
        raise Unsupported("descriptor table not determined by the loop invariant")
    return k


def kern_set(eng, k):
    eng.ghost_set("kern", k)


FILE = z3.Function("FILE", z3.StringSort(), z3.IntSort(), z3.IntSort(), U)
FILEO = z3.Function("FILEO", U, z3.IntSort(), z3.IntSort(), U)


def file_desc(eng, path, flag, mode):
    """Description created by os.open(path, flag, mode)."""
    path = eng.force(path)
    if isinstance(path, (VStr, VBytes)):
        return FILE(path.t, flag, mode)
    if isinstance(path, VOpaque):
        return FILEO(path.t, flag, mode)
    raise Unsupported("open of %r" % (path,))


def ebadf(eng, what):
    e = eng.alloc(eng.extclass("builtins.OSError"))
    n = eng.fresh_int("errno")
    eng.assume(z3.And(n > 0, n < 256))
    eng.heap[e.oid].attrs["args"] = VTuple([])
    eng.heap[e.oid].attrs["errno"] = VInt(n)
    eng.heap[e.oid].extra = what
    raise PyExc(e)


def kernel_spec(s=None):
    """os.* on descriptors.  Every call may fail with OSError; dup2 and dup of
    a closed descriptor and close of a closed one always do."""
    s = s or base_spec()

    def num(eng, v):
        v = eng.force(v)
        if isinstance(v, VBool):
            return z3.If(v.t, I(1), I(0))
        if not isinstance(v, VInt):
            eng.raise_py("TypeError", "an integer is required")
        return v.t

    def fails(eng, what):
        if eng.choose(2, what + " fails") == 1:
            ebadf(eng, what)

    def free(eng, k):
        d = eng.fresh_int("newfd")
        eng.assume(z3.And(d >= 0, z3.Not(k.opn(d))))
        for f in eng.extstate.get("fdfacts", ()):
            eng.assume(f(d))
        return d

    def dup2(eng, a, b, inheritable=None):
        a, b = num(eng, a), num(eng, b)
        k = kern(eng)
        if not eng.decide(k.opn(a), "dup2 source open"):
            ebadf(eng, "dup2")
        fails(eng, "dup2")
        inh = eng.truthy(inheritable) if inheritable is not None else z3.BoolVal(True)
        k2 = k.update(b, opn=z3.BoolVal(True), desc=k.desc(a), inh=z3.If(a == b, k.inh(a), inh))
        kern_set(eng, k2)
        return VInt(b)

    def close(eng, a):
        a = num(eng, a)
        k = kern(eng)
        if not eng.decide(k.opn(a), "close: open"):
            ebadf(eng, "close")
        kern_set(eng, k.update(a, opn=z3.BoolVal(False)))
        return NONE

    def dup(eng, a):
        a = num(eng, a)
        k = kern(eng)
        if not eng.decide(k.opn(a), "dup source open"):
            ebadf(eng, "dup")
        fails(eng, "dup")
        d = free(eng, k)
        kern_set(eng, k.update(d, opn=z3.BoolVal(True), desc=k.desc(a), inh=z3.BoolVal(False)))
        return VInt(d)

    def os_open(eng, path, flag, mode=None, **kw):
        k = kern(eng)
        fails(eng, "open")
        mode = num(eng, mode) if mode is not None else I(0o777)
        desc = file_desc(eng, path, num(eng, flag), mode)
        d = free(eng, k)
        kern_set(eng, k.update(d, opn=z3.BoolVal(True), desc=desc, inh=z3.BoolVal(False)))
        return VInt(d)

    def set_inheritable(eng, a, v):
        a = num(eng, a)
        k = kern(eng)
        if not eng.decide(k.opn(a), "set_inheritable: open"):
            ebadf(eng, "set_inheritable")
        kern_set(eng, k.update(a, inh=eng.truthy(v)))
        return NONE

    def closerange(eng, lo, hi):
        lo, hi = num(eng, lo), num(eng, hi)
        k = kern(eng)
        kern_set(eng, Kern(lambda q: z3.And(k.opn(q), z3.Or(q < lo, q >= hi)), k.desc, k.inh))
        return NONE
    s.ext.update({"os.dup2": dup2, "os.close": close, "os.dup": dup, "os.open": os_open,
                  "os.set_inheritable": set_inheritable, "os.closerange": closerange})
    return s


# ------------------------------------------------------------- item sources

class Source(object):
    """An arbitrary iterator: n >= 0 items item(0..n-1) (opaque objects, None
    or coroutines, as the path chooses), then the end or an exception.  The
    ghost variable counts the items taken."""

    def __init__(self, eng, tag="src", is_async=False, coros=False, nones=True, failing=True, types=()):
        self.eng, self.tag, self.is_async, self.coros, self.nones = eng, tag, is_async, coros, nones
        self.n = eng.fresh_int("len_" + tag)
        eng.assume(self.n >= 0)
        self.f = z3.Function(eng.fresh_name(tag + "_item"), z3.IntSort(), U)
        self.isnone = z3.Function(eng.fresh_name(tag + "_none"), z3.IntSort(), z3.BoolSort())
        self.fails = failing and eng.choose(2, tag + " ends with an exception") == 1
        self.exc = eng.alloc(eng.extclass("builtins.RuntimeError")) if self.fails else None
        self.calls = []
        self.g = "pos_" + tag
        if self.g not in eng.ghost:
            eng.ghost[self.g] = eng.fresh_int(self.g)
            eng.assume(z3.And(eng.ghost[self.g] >= 0, eng.ghost[self.g] <= self.n))
        self.types = types
        self.start = eng.ghost[self.g]
        m = {}
        me = lambda e, s: s
        if is_async:
            m["__aiter__"] = me
            m["__anext__"] = lambda e, s: VCoro(lambda: self.next("StopAsyncIteration"), "anext")
        else:
            m["__iter__"] = me
            m["__next__"] = lambda e, s: self.next("StopIteration")
        self.it = VOpaque(eng.fresh_u(tag), types=types, attrs=list(m), label=tag, methods=m)

    @property
    def pos(self):
        return self.eng.ghost[self.g]

    def item(self, i):
        v = VOpaque(self.f(i), types=["?", "-types.CoroutineType"], attrs=["?"], label="item")
        if not self.nones:
            return v
        return VCase([(self.isnone(i), lambda: NONE), (z3.BoolVal(True), lambda: v)])

    def next(self, stop):
        eng = self.eng
        p = self.pos
        if not eng.decide(p < self.n, "more items"):
            self.ended = True
            if self.fails:
                raise PyExc(self.exc)
            eng.raise_py(stop)
        eng.ghost_set(self.g, z3.simplify(p + 1))
        if self.coros and eng.choose(2, "item is a coroutine") == 1:
            def run():
                self.calls.append("awaited")
                return self.item(p)
            return VCoro(run, "item coroutine")
        return self.item(p)


def is_exc(eng, e, name):
    return eng.exc_matches(e.value, eng.extclass("builtins." + name))

"""C04 redirect table algebra."""
from pyvc.lib import *
from pyvc.spec import Property

P = Property("C04", trusted=[
    "os.pipe returns two fresh, distinct descriptors; tempfile.mkstemp a fresh descriptor and path",
    "machine integers (fd numbers, flags) are mathematical integers",
])
RD = "pieshell.redir.Redirect"
RS = "pieshell.redir.Redirects"


def sym_redirect(eng, tag="r", removable=False):
    """An arbitrary Redirect object."""
    fd = eng.fresh_int(tag + "_fd")
    eng.assume(fd >= 0)
    alts = [("int", lambda: VInt(eng.fresh_int(tag + "_isrc"))),
            ("str", lambda: VStr(eng.fresh_str(tag + "_ssrc"))),
            ("PIPE", lambda: VClass(eng.cls("pieshell.redir.PIPE"))),
            ("TMP", lambda: VClass(eng.cls("pieshell.redir.TMP")))]
    if removable:
        alts.append(("None", lambda: NONE))
    src = VLazy(tag + "_source", alts)
    pipe = VLazy(tag + "_pipe", [("none", lambda: NONE), ("int", lambda: VInt(eng.fresh_int(tag + "_pipe")))])
    eng.inputs.append((tag + ".fd", fd))
    return eng.new_obj(eng.cls(RD), fd=VInt(fd), source=src, flag=VInt(eng.fresh_int(tag + "_flag")),
                       mode=VInt(eng.fresh_int(tag + "_mode")), pipe=pipe, borrowed=VBool(eng.fresh_bool(tag + "_bor")))


def spec_with(*tables):
    return base_spec()


def use_tables(eng, *tables):
    """Invariants for loops over the values of the input tables: entries are
    copied (or, for register(Redirects), stored) one after the other."""
    for t in tables:
        eng.spec.loops[t.tag] = lambda e, L, t=t: CopyLoop(e, t.dict)


def check_union(eng, res, first, second, name, extra=None):
    """res = copy of first overridden by copy of second (then by extra)."""
    q = eng.fresh_int("k")
    rep = table_content(eng, res)
    h = has_at(eng, rep, q)
    want = []
    if extra is not None and eng.decide(q == eng.get_raw(extra, "fd").t, "extra fd"):
        eng.prove(h, name + ": contains the last registration")
        v = entry_at(eng, rep, q)
        eng.prove(v is not None and fields_equal(eng, v, extra), name + ": last registration wins")
        eng.prove(v is not None and is_fresh(eng, v) and not (isinstance(v, Ref) and v.oid == extra.oid),
                  name + ": entries are copies")
        return
    ts = [t for t in (second, first) if t is not None]
    eng.prove(h == z3.Or([t.dict.has(q) for t in ts]), name + ": exactly the descriptors of the operands")
    if not eng.decide(h, "present"):
        return
    v = entry_at(eng, rep, q)
    for t in ts:
        if eng.decide(t.dict.has(q), "in " + t.tag):
            eng.prove(fields_equal(eng, v, FRef(t.fam, q)), name + ": later operand wins, fields preserved")
            eng.prove(is_fresh(eng, v, *[x.fam for x in ts]), name + ": entries are copies")
            return


def frame(eng, name, *tables):
    """The tables and their entries are as before."""
    for t in tables:
        rep = table_content(eng, t.ref)
        eng.prove(rep is t.rep, name + ": table %s unchanged" % t.tag)
        k = eng.fresh_int("fk")
        eng.assume(t.dict.has(k))
        for f in FIELDS:
            eng.prove(same_val(eng, eng.getattr(FRef(t.fam, k), f), t.fam.base(k, f)),
                      name + ": entries of %s unchanged" % t.tag)


@P.target("register(redirect): replaces exactly its own descriptor", functions=[RS + ".register"])
def _(eng):
    t = Table(eng, "A")
    r = sym_redirect(eng)
    res = eng.call(eng.getattr(t.ref, "register"), [r])
    eng.prove(eng.same(res, t.ref), "returns the table")
    k = eng.fresh_int("k")
    rep = table_content(eng, t.ref)
    if eng.decide(k == eng.get_raw(r, "fd").t, "own fd"):
        v = entry_at(eng, rep, k)
        eng.prove(v is not None and fields_equal(eng, v, r), "registered entry wins")
    else:
        eng.prove(has_at(eng, rep, k) == t.dict.has(k), "no other descriptor added or removed")
        if eng.decide(t.dict.has(k)):
            eng.prove(fields_equal(eng, entry_at(eng, rep, k), FRef(t.fam, k)), "other entries kept")


@P.target("register(redirect to None): removes exactly that descriptor", functions=[RS + ".register"])
def _(eng):
    t = Table(eng, "A")
    fd = eng.fresh_int("fd")
    eng.assume(t.dict.has(fd))
    r = eng.call(VClass(eng.cls(RD)), [VInt(fd), NONE, VInt(1)])
    eng.call(eng.getattr(t.ref, "register"), [r])
    k = eng.fresh_int("k")
    rep = table_content(eng, t.ref)
    eng.prove(has_at(eng, rep, k) == z3.And(t.dict.has(k), k != fd), "exactly the named descriptor is removed")
    if eng.decide(z3.And(t.dict.has(k), k != fd)):
        eng.prove(eng.same(entry_at(eng, rep, k), FRef(t.fam, k)), "other entries kept")


@P.target("redirect(fd, source, ...) registers that redirect", functions=[RS + ".redirect", RD + ".__init__"])
def _(eng):
    t = Table(eng, "A")
    names = ("stdin", "stdout", "stderr")
    j = eng.choose(4, "fd given as")
    fd = VStr(names[j]) if j < 3 else VInt(eng.fresh_int("fd"))
    num = I(j) if j < 3 else fd.t
    src = VInt(eng.fresh_int("src"))
    kw = {"borrowed": VBool(eng.fresh_bool("b"))}
    args = [fd, src]
    if j == 3:
        eng.assume(num >= 0)
    flag = None
    if eng.choose(2, "flag given") or j == 3:
        flag = eng.fresh_int("flag")
        args.append(VInt(flag))
    res = eng.call(eng.getattr(t.ref, "redirect"), args, kw)
    eng.prove(eng.same(res, t.ref), "returns the table")
    v = entry_at(eng, table_content(eng, t.ref), num)
    eng.prove(v is not None, "entry present")
    eng.prove(eng.eq(eng.getattr(v, "fd"), VInt(num)), "descriptor resolved from its name")
    eng.prove(eng.eq(eng.getattr(v, "source"), src), "source kept")
    eng.prove(eng.eq(eng.getattr(v, "borrowed"), kw["borrowed"]), "ownership kept")
    import os
    want = VInt(flag) if flag is not None else VInt([os.O_RDONLY, os.O_WRONLY | os.O_CREAT, os.O_WRONLY | os.O_CREAT][j])
    eng.prove(eng.eq(eng.getattr(v, "flag"), want), "stdin is opened for reading, stdout and stderr for writing")
    eng.prove(eng.eq(eng.getattr(v, "mode"), VInt(0o777)), "default mode")
    eng.prove(eng.same(eng.getattr(v, "pipe"), NONE), "no pipe end")


@P.target("Redirect(redirect) copies every field", functions=[RD + ".__init__"])
def _(eng):
    r = sym_redirect(eng)
    before = {f: eng.get_raw(r, f) for f in FIELDS}
    c = eng.call(VClass(eng.cls(RD)), [r])
    eng.prove(not (isinstance(c, Ref) and c.oid == r.oid), "new object")
    eng.prove(fields_equal(eng, c, r), "all fields copied")
    eng.prove(all(eng.get_raw(r, f) is before[f] for f in FIELDS), "original unchanged")


@P.target("Redirects(A): an equal table of fresh entries", functions=[RS + ".__init__", RS + ".register", RD + ".__init__"])
def _(eng):
    a = Table(eng, "A")
    use_tables(eng, a)
    res = eng.call(VClass(eng.cls(RS)), [a.ref])
    check_union(eng, res, a, None, "copy")
    frame(eng, "copy", a)


@P.target("Redirects(A, B): B overrides A", functions=[RS + ".__init__", RS + ".register"])
def _(eng):
    a, b = Table(eng, "A"), Table(eng, "B")
    use_tables(eng, a, b)
    res = eng.call(VClass(eng.cls(RS)), [a.ref, b.ref])
    check_union(eng, res, a, b, "union")
    frame(eng, "union", a, b)


@P.target("A.merge(B): B overrides A", functions=[RS + ".merge"])
def _(eng):
    a, b = Table(eng, "A"), Table(eng, "B")
    use_tables(eng, a, b)
    res = eng.call(eng.getattr(a.ref, "merge"), [b.ref])
    eng.prove(not (isinstance(res, Ref) and res.oid in (a.ref.oid, b.ref.oid)), "merge: new table")
    check_union(eng, res, a, b, "merge")
    frame(eng, "merge", a, b)


@P.target("Redirects(A, redirect): the redirect overrides A", functions=[RS + ".__init__"])
def _(eng):
    a = Table(eng, "A")
    use_tables(eng, a)
    r = sym_redirect(eng)
    res = eng.call(VClass(eng.cls(RS)), [a.ref, r])
    check_union(eng, res, a, None, "extend", extra=r)
    frame(eng, "extend", a)


@P.target("register(Redirects): every entry of the argument is registered", functions=[RS + ".register"])
def _(eng):
    a, b = Table(eng, "A"), Table(eng, "B")
    eng.spec.loops["B"] = lambda e, L: CopyLoop(e, b.dict, fresh=False)
    eng.call(eng.getattr(a.ref, "register"), [b.ref])
    q = eng.fresh_int("k")
    rep = table_content(eng, a.ref)
    eng.prove(has_at(eng, rep, q) == z3.Or(a.dict.has(q), b.dict.has(q)), "union of descriptors")
    if eng.decide(z3.Or(a.dict.has(q), b.dict.has(q))):
        v = entry_at(eng, rep, q)
        if eng.decide(b.dict.has(q)):
            eng.prove(fields_equal(eng, v, FRef(b.fam, q)), "argument wins")
        else:
            eng.prove(fields_equal(eng, v, FRef(a.fam, q)), "other entries kept")
    frame(eng, "register", b)


class BorrowLoop(LoopSpec):
    """All entries visited so far are marked borrowed, nothing else changed."""

    def __init__(self, t):
        self.t = t

    def havoc_assume(self, L):
        eng, t = L.eng, self.t
        i = L.i
        base = t.fam.fields["borrowed"]
        fam = t.fam
        # value of the attribute after i iterations
        fam.fields = dict(fam.fields, borrowed=lambda k: VBool(
            z3.Or(z3.And(t.dict.has(k), t.dict.posf(k) < i), base(k).t)))
        fam._memo = {}
        L.data["base"] = base

    def check(self, L, i):
        eng, t = L.eng, self.t
        base = L.data.get("base") or t.fam.fields["borrowed"]
        q = eng.fresh_int("q")
        if eng.decide(t.dict.has(q)):
            eng.prove(eng.eq(eng.getattr(FRef(t.fam, q), "borrowed"),
                             VBool(z3.Or(t.dict.posf(q) < i, base(q).t))), "borrow loop: visited entries are borrowed")


@P.target("borrow(): every entry becomes borrowed, nothing else changes", functions=[RS + ".borrow", RD + ".borrow"])
def _(eng):
    t = Table(eng, "A")
    eng.spec.loops["A"] = lambda e, L: BorrowLoop(t)
    eng.call(eng.getattr(t.ref, "borrow"), [])
    q = eng.fresh_int("q")
    rep = table_content(eng, t.ref)
    eng.prove(has_at(eng, rep, q) == t.dict.has(q), "same descriptors")
    if eng.decide(t.dict.has(q)):
        v = entry_at(eng, rep, q)
        eng.prove(eng.truthy(eng.getattr(v, "borrowed")), "every entry is borrowed")
        for f in FIELDS:
            if f != "borrowed":
                eng.prove(same_val(eng, eng.getattr(v, f), t.fam.base(q, f)), "other fields unchanged")


@P.target("find_free_fd(): above every descriptor in use", functions=[RS + ".find_free_fd"])
def _(eng):
    t = Table(eng, "A")
    ff = eng.call(eng.getattr(t.ref, "find_free_fd"), [])
    k = eng.fresh_int("k")
    eng.assume(t.dict.has(k))
    eng.prove(ff.t > 2, "never a standard descriptor")
    eng.prove(ff.t > k, "no target descriptor at or above it")
    if eng.decide(t.kind(k) == t.kinds.index("int")):
        eng.prove(ff.t > t.isrc(k), "no source descriptor at or above it")
    rep = table_content(eng, t.ref)
    eng.prove(rep is t.rep, "table unchanged")


def pipe_spec():
    s = base_spec()

    def mkpipe(eng):
        r, w = eng.fresh_int("rfd"), eng.fresh_int("wfd")
        eng.assume(z3.And(r >= 0, w >= 0, r != w))
        eng.extstate.setdefault("pipes", []).append((r, w))
        return VTuple([VInt(r), VInt(w)])
    s.ext["os.pipe"] = mkpipe
    s.ext["os.pipe2"] = lambda eng, flags: mkpipe(eng)
    s.ext["fcntl.fcntl"] = fcntl_model

    def mkstemp(eng, *a, **k):
        fd, path = eng.fresh_int("tmpfd"), eng.fresh_str("tmppath")
        eng.assume(fd >= 0)
        eng.extstate.setdefault("tmps", []).append((fd, path))
        return VTuple([VInt(fd), VStr(path)])
    s.ext["tempfile.mkstemp"] = mkstemp
    return s


def fcntl_model(eng, fd, cmd, arg=None):
    """Descriptor flags: F_GETFD / F_SETFD with FD_CLOEXEC as the only flag."""
    import fcntl
    fl = eng.extstate.setdefault("cloexec", {})
    fd = eng.force(fd).t
    cmd = z3.simplify(eng.force(cmd).t)
    if not z3.is_int_value(cmd):
        raise Unsupported("fcntl command")
    if cmd.as_long() == fcntl.F_GETFD:
        for k, v in fl.items():
            if k.eq(fd):
                return VInt(v)
        v = eng.fresh_int("fdflags")
        eng.assume(z3.Or(v == 0, v == 1))
        fl[fd] = v
        return VInt(v)
    if cmd.as_long() == fcntl.F_SETFD:
        fl[fd] = eng.force(arg).t
        return VInt(0)
    raise Unsupported("fcntl command %s" % cmd)


@P.target("make_pipe(): a PIPE becomes the right end of a new pipe", spec=pipe_spec, functions=[RD + ".make_pipe", "pieshell.utils.pipe.pipe_cloexec"])
def _(eng):
    import os
    r = sym_redirect(eng)
    eng.assume(eng.get_raw(r, "flag").t >= 0)
    eng.set_raw(r, "source", VClass(eng.cls("pieshell.redir.PIPE")))
    res = eng.call(eng.getattr(r, "make_pipe"), [])
    pipes = eng.extstate.get("pipes", [])
    eng.prove(len(pipes) == 1, "exactly one pipe is created")
    rf, wf = pipes[0]
    w = eng.truthy(models.binop(eng, "BitAnd", eng.get_raw(r, "flag"), VInt(os.O_WRONLY)))
    src, pip = eng.getattr(res, "source"), eng.getattr(res, "pipe")
    eng.prove(z3.If(w, z3.And(eng.eq(src, VInt(wf)), eng.eq(pip, VInt(rf))),
                    z3.And(eng.eq(src, VInt(rf)), eng.eq(pip, VInt(wf)))),
              "a writer gets the write end and exposes the read end, a reader the converse")
    for f in ("fd", "flag", "mode"):
        eng.prove(same_val(eng, eng.getattr(res, f), eng.get_raw(r, f)), "other fields preserved")
    eng.prove(z3.Not(eng.truthy(eng.getattr(res, "borrowed"))), "the new end is owned")
    fl = eng.extstate.get("cloexec", {})
    for e in (rf, wf):
        got = [v for k, v in fl.items() if k.eq(e)]
        eng.prove(bool(got), "close-on-exec is set on both ends")
        eng.prove(models.bitop(eng, "BitAnd", got[0], I(1)) == 1 if got else False, "close-on-exec is set on both ends")


@P.target("make_pipe(): TMP and STRING become a new temporary file", spec=pipe_spec, functions=[RD + ".make_pipe"])
def _(eng):
    import os
    r = sym_redirect(eng)
    eng.assume(eng.get_raw(r, "flag").t >= 0)
    nm = ("TMP", "STRING")[eng.choose(2, "kind")]
    c = VClass(eng.cls("pieshell.redir." + nm))
    eng.set_raw(r, "source", c)
    w = eng.truthy(models.binop(eng, "BitAnd", eng.get_raw(r, "flag"), VInt(os.O_WRONLY)))
    try:
        res = eng.call(eng.getattr(r, "make_pipe"), [])
    except PyExc:
        eng.prove(z3.Not(w), "refused only for a descriptor opened for reading")
        eng.prove(not eng.extstate.get("tmps"), "no file is left behind when refused")
        return
    eng.prove(w, "a capture needs a descriptor opened for writing")
    tmps = eng.extstate.get("tmps", [])
    eng.prove(len(tmps) == 1, "exactly one temporary file")
    fd, path = tmps[0]
    eng.prove(eng.eq(eng.getattr(res, "source"), VInt(fd)), "output goes to the temporary file")
    p = eng.getattr(res, "pipe")
    eng.prove(models.isinst(eng, p, c), "the capture kind is kept")
    eng.prove(eng.eq(eng.getattr(p, "path"), VStr(path)), "the path of the temporary file is kept")
    for f in ("fd", "flag", "mode"):
        eng.prove(same_val(eng, eng.getattr(res, f), eng.get_raw(r, f)), "other fields preserved")
    eng.prove(z3.Not(eng.truthy(eng.getattr(res, "borrowed"))), "the new descriptor is owned")


@P.target("make_pipe(): any other redirect is kept as it is", spec=pipe_spec, functions=[RD + ".make_pipe"])
def _(eng):
    r = sym_redirect(eng)
    eng.set_raw(r, "source", VLazy("plain", [("int", lambda: VInt(eng.fresh_int("isrc"))),
                                             ("str", lambda: VStr(eng.fresh_str("ssrc")))]))
    res = eng.call(eng.getattr(r, "make_pipe"), [])
    eng.prove(fields_equal(eng, res, r), "unchanged")
    eng.prove(not eng.extstate.get("pipes") and not eng.extstate.get("tmps"), "nothing is created")


@P.target("make_pipes(): applied to every entry, descriptor by descriptor", functions=[RS + ".make_pipes"])
def _(eng):
    t = Table(eng, "A")
    R = eng.cls(RD)
    # contract of make_pipe (proved above): a redirect for the same fd, whose
    # source is an int or path; owned unless it is the redirect itself
    mp = Fam(eng, "made", R, dict(t.fam.fields, source=lambda k: VInt(z3.Function("made_src", z3.IntSort(), z3.IntSort())(k))))
    calls = []

    def make_pipe(eng, self):
        calls.append(self)
        if isinstance(self, FRef) and self.fam is t.fam:
            return FRef(mp, self.key)
        raise Unsupported("make_pipe of another object")
    eng.spec.contracts[RD + ".make_pipe"] = make_pipe

    def loop(e, L):
        # the list of made redirects, or its registration in the new table
        return CopyLoop(e, madedict)
    madedict = SymDict(eng, "A", z3.IntSort(), lambda k: FRef(mp, k), lambda k: VInt(k), has=t.dict._has, n=t.dict.n)
    madedict.keyf, madedict.posf = t.dict.keyf, t.dict.posf
    eng.spec.loops["A"] = loop
    eng.spec.loops["A.values"] = None
    res = eng.call(eng.getattr(t.ref, "make_pipes"), [])
    q = eng.fresh_int("k")
    rep = table_content(eng, res)
    eng.prove(has_at(eng, rep, q) == t.dict.has(q), "same descriptors")
    if eng.decide(t.dict.has(q)):
        v = entry_at(eng, rep, q)
        eng.prove(fields_equal(eng, v, FRef(mp, q)), "every entry is the made redirect")
    frame(eng, "make_pipes", t)


@P.target("table.stdin / .stdout / .stderr are entries 0, 1, 2", functions=[RS + ".__getattr__"])
def _(eng):
    t = Table(eng, "A")
    j = eng.choose(3, "name")
    nm = ("stdin", "stdout", "stderr")[j]
    try:
        v = eng.getattr(t.ref, nm)
    except PyExc as e:
        eng.prove(eng.exc_matches(e.value, eng.extclass("builtins.AttributeError")), "AttributeError when absent")
        eng.prove(z3.Not(t.dict.has(I(j))), "only when absent")
        return
    eng.prove(t.dict.has(I(j)), "only present entries")
    eng.prove(eng.same(v, FRef(t.fam, I(j))), "the entry of that descriptor")

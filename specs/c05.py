"""C05 descriptors of a child process."""
from pyvc.lib import *
from pyvc.spec import Property

P = Property("C05", trusted=[
    "POSIX semantics of open, dup, dup2, close and of close-on-exec (kernel model in pyvc/lib.py: the descriptor table "
    "is a function of the number; every call may fail with OSError; a new descriptor is any number not in use)",
    "no descriptor number is at or above SC_OPEN_MAX",
    "execvpe replaces the program or raises; _exit ends the process",
    "machine integers are mathematical integers",
])
RD = "pieshell.redir.Redirect"
RS = "pieshell.redir.Redirects"
CMD = "pieshell.pipeline.command.Command"
KINDS = ("int", "str", "path")


class ChildEnd(Exception):
    """The process ended (exec or _exit)."""

    def __init__(self, how, arg=None):
        self.how, self.arg = how, arg


def start(eng, tag="A"):
    """An arbitrary table whose sources are descriptors and paths, in an
    arbitrary process."""
    t = Table(eng, tag, kinds=KINDS)
    k0 = kern_fresh(eng)
    eng.ghost["kern"] = k0
    m = maxfd(eng)
    eng.extstate["fdfacts"] = [lambda q: z3.Implies(k0.opn(q), z3.And(q >= 0, q < m))]
    lf = z3.Int("logfd")
    eng.assume(lf >= 0)
    eng.spec.globals["pieshell.log.logfd"] = lambda e: VInt(lf)
    return t, k0, lf


def want(eng, t, k0, q):
    """What descriptor q has to refer to."""
    d = FILEO(t.osrc(q), t.flag(q), t.mode(q))
    d = z3.If(t.kind(q) == KINDS.index("str"), FILE(t.ssrc(q), t.flag(q), t.mode(q)), d)
    return z3.If(t.kind(q) == KINDS.index("int"), k0.desc(t.isrc(q)), d)


def isint(t, q):
    return t.kind(q) == KINDS.index("int")


def free_fd(eng, t):
    """Contract of find_free_fd (proved in C04)."""
    ff = eng.fresh_int("ff")
    eng.assume(ff > 2)
    t.dict.add_keyfact(lambda k: z3.Implies(t.dict._has(k), z3.And(ff > k, z3.Implies(isint(t, k), ff > t.isrc(k)))))
    eng.extstate["ff"] = ff
    return VInt(ff)


def moved_fam(eng, t):
    """The entries of the table with their sources moved out of the way."""
    ff = eng.extstate["ff"]
    if "movedfam" not in eng.extstate:
        base = t.fam

        def source(k):
            return VCase([(isint(t, k), lambda: VInt(ff + t.dict.posf(k))),
                          (t.kind(k) == KINDS.index("str"), lambda: VStr(t.ssrc(k))),
                          (z3.BoolVal(True), lambda: VOpaque(t.osrc(k), types=["pathlib.PurePath"], label="path"))])
        eng.extstate["movedfam"] = Fam(eng, "moved", eng.cls(RD), dict(base.fields, source=source))
    return eng.extstate["movedfam"]


def moved_seq(eng, t, n):
    fam = moved_fam(eng, t)
    s = SymSeq(eng, "moved", n=n, at=lambda j: FRef(fam, eng.force(t.dict.keyseq.at(eng, j)).t))
    eng.derive(s, t.dict.keyseq, I(0))
    return s


def moved_kern(eng, t, k0, n):
    """Process state after the first n sources have been moved."""
    ff = eng.extstate["ff"]

    def hit(q):
        j = z3.simplify(q - ff)
        key = t.dict.key_at(j)
        t.dict.touch_key(key)
        return z3.And(j >= 0, j < n, isint(t, key)), key
    return Kern(lambda q: z3.Or(hit(q)[0], k0.opn(q)),
                lambda q: z3.If(hit(q)[0], k0.desc(t.isrc(hit(q)[1])), k0.desc(q)),
                lambda q: z3.Or(hit(q)[0], k0.inh(q)))


class MoveLoop(LoopSpec):
    """After i entries: the list holds the first i moved entries, source j
    (if a descriptor) has been duplicated to ff + j, nothing below ff changed."""

    def __init__(self, t, k0):
        self.t, self.k0 = t, k0

    def lists(self, L):
        return [m[1] for m in L.mods if m[0] == "content" and isinstance(L.entry["heap"][m[1]].content, Rope)]

    def havoc_assume(self, L):
        eng, t = L.eng, self.t
        for oid in self.lists(L):
            eng.heap[oid].content = L.entry["heap"][oid].content + Rope([Chunk(moved_seq(eng, t, L.i))])
        if ("ghost", "kern") in L.mods:
            eng.ghost["kern"] = moved_kern(eng, t, self.k0, L.i)

    def check(self, L, i):
        eng, t, k0 = L.eng, self.t, self.k0
        for oid in self.lists(L):
            cur = eng.heap[oid].content
            eng.prove(cur.length() == L.entry["heap"][oid].content.length() + i, "move loop: one entry per redirection")
            if i is not None and not z3.is_int_value(i):
                v = models.index_rope(eng, cur, z3.simplify(i - 1))
                ref = moved_seq(eng, t, i).at(eng, z3.simplify(i - 1))
                eng.prove(fields_equal(eng, v, ref), "move loop: the entry keeps its fields, its source is moved")
                old = L.elem
                eng.prove(not eng.identical_syn(v, old), "move loop: the entries are copies")
        if "ff" not in eng.extstate:
            raise Unsupported("the free descriptor is not computed by find_free_fd")
        q = eng.fresh_int("q")
        now, exp = kern(eng), moved_kern(eng, t, k0, i)
        eng.prove(z3.And(now.opn(q) == exp.opn(q), z3.Implies(exp.opn(q), z3.And(now.desc(q) == exp.desc(q)))),
                  "move loop: descriptors below the free one are untouched, moved sources duplicated")


class PerformLoop(LoopSpec):
    """After i moved entries have been performed: their targets refer to what
    they should, the remaining moved sources are still there."""

    def __init__(self, t, k0):
        self.t, self.k0 = t, k0

    def facts(self, eng, K, q, i):
        """Invariant at descriptor q."""
        t, k0, ff = self.t, self.k0, eng.extstate["ff"]
        t.dict.touch_key(q)
        done = z3.And(t.dict._has(q), t.dict.posf(q) < i)
        j = z3.simplify(q - ff)
        key = t.dict.key_at(j)
        t.dict.touch_key(key)
        todo = z3.And(j >= i, j < t.dict.n, isint(t, key))
        return z3.And(z3.Implies(done, z3.And(K.opn(q), K.inh(q), K.desc(q) == want(eng, t, k0, q))),
                      z3.Implies(todo, z3.And(K.opn(q), K.desc(q) == k0.desc(t.isrc(key)))))

    def havoc_assume(self, L):
        eng = L.eng
        forget_dicts(L)
        if ("ghost", "kern") not in L.mods:
            return
        base = kern_fresh(eng, "KP")
        seen = set()
        i = L.i

        def know(q):
            q = z3.simplify(q)
            if str(q) not in seen:
                seen.add(str(q))
                eng.assume(self.facts(eng, base, q, i))
            return q
        eng.ghost["kern"] = Kern(lambda q: base.opn(know(q)), lambda q: base.desc(know(q)), lambda q: base.inh(know(q)))

    def check(self, L, i):
        eng = L.eng
        if ("ghost", "kern") not in L.mods and not z3.is_int_value(i):
            return
        q = eng.fresh_int("q")
        K = kern(eng)
        K.opn(q), K.desc(q), K.inh(q)
        eng.prove(self.facts(eng, K, q, i), "perform loop: performed targets are right, pending sources intact")


class CloseLoop(LoopSpec):
    """After i numbers: exactly the unlisted ones below i are closed."""

    def __init__(self, t, lf):
        self.t, self.lf = t, lf

    def expected(self, k, i):
        t, lf = self.t, self.lf

        def opn(q):
            t.dict.touch_key(q)
            return z3.And(k.opn(q), z3.Not(z3.And(q >= 0, q < i, z3.Not(t.dict._has(q)), q != lf)))
        return Kern(opn, k.desc, k.inh)

    def havoc_assume(self, L):
        if ("ghost", "kern") in L.mods:
            L.eng.ghost["kern"] = self.expected(L.entry["ghost"]["kern"], L.i)

    def check(self, L, i):
        eng = L.eng
        q = eng.fresh_int("q")
        now, exp = kern(eng), self.expected(L.entry["ghost"]["kern"], i)
        eng.prove(z3.And(now.opn(q) == exp.opn(q), z3.Implies(exp.opn(q), z3.And(now.desc(q) == exp.desc(q), now.inh(q) == exp.inh(q)))),
                  "close loop: exactly the unlisted numbers are closed")


def spec5():
    return kernel_spec()


def is_exception(eng, e):
    eng.prove(eng.exc_matches(e.value, eng.extclass("builtins.Exception")), "failure is an ordinary exception")


@P.target("move_existing_fds(): every source descriptor is duplicated above all numbers in use", spec=spec5,
          functions=[RS + ".move_existing_fds", RD + ".move", RD + ".__init__"])
def _(eng):
    t, k0, lf = start(eng)
    eng.spec.contracts[RS + ".find_free_fd"] = lambda e, self: free_fd(e, t)
    eng.spec.loops["A"] = MoveLoop(t, k0)
    eng.spec.loops["moved"] = PerformLoop(t, k0)
    try:
        res = eng.call(eng.getattr(t.ref, "move_existing_fds"), [])
    except PyExc as e:
        return is_exception(eng, e)
    rope = models.iter_rope(eng, res)
    eng.prove(rope.length() == t.dict.n, "one moved entry per redirection")
    j = eng.fresh_int("j")
    eng.assume(z3.And(j >= 0, j < t.dict.n))
    key = eng.force(t.dict.keyseq.at(eng, j)).t
    v = models.index_rope(eng, rope, j)
    ff = eng.extstate["ff"]
    for f in FIELDS:
        if f != "source":
            eng.prove(same_val(eng, eng.getattr(v, f), t.fam.base(key, f)), "moved entries keep their fields")
    K = kern(eng)
    if eng.decide(isint(t, key)):
        s = eng.force(eng.getattr(v, "source"))
        eng.prove(isinstance(s, VInt), "a descriptor stays a descriptor")
        eng.prove(z3.And(K.opn(s.t), K.desc(s.t) == k0.desc(t.isrc(key)), s.t >= ff), "the moved source refers to the original source")
    else:
        eng.prove(same_val(eng, eng.getattr(v, "source"), t.fam.base(key, "source")), "paths are kept")
    q = eng.fresh_int("q")
    eng.assume(q < ff)
    eng.prove(z3.And(K.opn(q) == k0.opn(q), z3.Implies(K.opn(q), K.desc(q) == k0.desc(q))), "nothing below the free descriptor changes")
    eng.prove(table_content(eng, t.ref) is t.rep, "the table is unchanged")


def check_final(eng, t, k0, lf):
    K = kern(eng)
    q = eng.fresh_int("q")
    t.dict.touch_key(q)
    K.opn(q), K.desc(q), K.inh(q)
    if eng.decide(t.dict._has(q), "listed"):
        eng.prove(K.opn(q), "every listed descriptor is open")
        eng.prove(K.desc(q) == want(eng, t, k0, q), "every listed descriptor refers to its source as it was before")
        eng.prove(K.inh(q), "every listed descriptor is inherited")
    else:
        m = maxfd(eng)
        eng.assume(q != lf)
        eng.assume(z3.And(q >= 0, q < m))
        eng.prove(z3.Not(K.opn(q)), "every other descriptor is closed")


@P.target("Redirects.perform(): simultaneous assignment, everything else closed", spec=spec5,
          functions=[RS + ".perform", RS + ".move_existing_fds", RS + ".close_other_fds", RD + ".perform", RD + ".open", RD + ".move"])
def _(eng):
    t, k0, lf = start(eng)
    eng.spec.contracts[RS + ".find_free_fd"] = lambda e, self: free_fd(e, t)
    eng.spec.loops["A"] = MoveLoop(t, k0)
    eng.spec.loops["moved"] = PerformLoop(t, k0)
    eng.spec.loops["range"] = CloseLoop(t, lf)
    try:
        eng.call(eng.getattr(t.ref, "perform"), [])
    except PyExc as e:
        return is_exception(eng, e)
    check_final(eng, t, k0, lf)


@P.target("close_other_fds(): exactly the unlisted descriptors (but the log) are closed", spec=spec5,
          functions=[RS + ".close_other_fds"])
def _(eng):
    t, k0, lf = start(eng)
    eng.spec.loops["range"] = CloseLoop(t, lf)
    eng.call(eng.getattr(t.ref, "close_other_fds"), [])
    K = kern(eng)
    q = eng.fresh_int("q")
    t.dict.touch_key(q)
    m = maxfd(eng)
    eng.prove(z3.Implies(z3.And(q >= 0, q < m, z3.Not(t.dict._has(q)), q != lf), z3.Not(K.opn(q))), "unlisted descriptors are closed")
    eng.prove(z3.Implies(t.dict._has(q), z3.And(K.opn(q) == k0.opn(q), K.desc(q) == k0.desc(q), K.inh(q) == k0.inh(q))), "listed ones are untouched")
    eng.prove(K.opn(lf) == k0.opn(lf), "the log stays open")


def exec_spec():
    s = kernel_spec()

    def execvpe(eng, file, args, env=None):
        if eng.choose(2, "exec fails") == 1:
            ebadf(eng, "exec")
        raise ChildEnd("exec", (file, args, env))

    def _exit(eng, code):
        raise ChildEnd("exit", eng.force(code))
    s.ext["os.execvpe"] = execvpe
    s.ext["os._exit"] = _exit
    s.ext["os.getpid"] = lambda eng: VInt(eng.fresh_int("pid"))

    def chdir(eng, p):
        if eng.choose(2, "chdir fails") == 1:
            ebadf(eng, "chdir")
        eng.ghost_set("chdir", p)
        return NONE
    s.ext["os.chdir"] = chdir

    def write(eng, *a):
        if eng.choose(2, "stderr fails") == 1:
            ebadf(eng, "stderr")
        return NONE
    s.ext["sys.stderr.write"] = write
    s.ext["sys.stderr.flush"] = write
    s.contracts["pieshell.pipeline.base.pipeline_repr"] = lambda eng, o: VStr(eng.fresh_str("repr"))
    return s


def command_obj(eng, cls=CMD, **attrs):
    env = eng.new_obj(eng.cls("pieshell.environ.Environment"), _cwd=VStr(eng.fresh_str("cwd")),
                      _exports_value=eng.new_dict(DictRep(SymDict(eng, "exports", z3.StringSort(), lambda k: VStr(z3.Function("exp_val", z3.StringSort(), z3.StringSort())(k)), lambda k: VStr(k)))),
                      _scope=NONE, _interactive=VBool(eng.fresh_bool("interactive")))
    return eng.new_obj(eng.cls(cls), _env=env, _arg=eng.new_list(), _running_process=NONE, _started=VBool(False), **attrs), env


@P.target("Command._child(): redirections, directory, then exec; any failure before exec means no exec", spec=exec_spec,
          functions=[CMD + "._child"])
def _(eng):
    cmd, env = command_obj(eng)
    t, k0, lf = start(eng)
    done = []

    def perform(e, self):
        e.prove(e.same(self, t.ref), "performs the given table")
        if e.choose(2, "perform fails") == 1:
            ebadf(e, "perform")
        done.append(1)
        e.ghost_set("kern", kern_fresh(e, "performed"))
        return NONE
    eng.spec.contracts[RS + ".perform"] = perform
    args = eng.new_list(Rope([Chunk(SymSeq(eng, "args", at=lambda j: VStr(z3.Function("arg", z3.IntSort(), z3.StringSort())(j))))]))
    n = eng.content(args).length()
    eng.assume(n > 0)
    try:
        eng.call(eng.getattr(cmd, "_child"), [t.ref, args])
        eng.prove(False, "returns only by exception")
    except ChildEnd as c:
        eng.prove(c.how == "exec", "ends by executing")
        eng.prove(len(done) == 1, "only after the redirections have been performed")
    except PyExc as e:
        is_exception(eng, e)


@P.target("Command._run() in the child: executes or exits with failure, never returns", spec=exec_spec,
          functions=[CMD + "._run"])
def _(eng):
    cmd, env = command_obj(eng)
    t, k0, lf = start(eng)
    eng.spec.ext["os.fork"] = lambda e: VInt(0)
    eng.spec.contracts[RS + ".make_pipes"] = lambda e, self: self
    eng.spec.contracts["pieshell.pipeline.command.BaseCommand._arg_list"] = lambda e, self, *a, **k: e.new_list(
        Rope([Chunk(SymSeq(e, "args", at=lambda j: VStr(z3.Function("arg", z3.IntSort(), z3.StringSort())(j))))]))
    eng.spec.contracts["pieshell.pipeline.base.Pipeline._run"] = lambda e, *a, **k: NONE
    how = []

    def child(e, self, redirects, args):
        j = e.choose(5, "child")
        how.append(j)
        if j == 0:
            raise ChildEnd("exec")
        if j == 1:
            ebadf(e, "child fails")
        if j == 2:
            e.raise_py("ValueError", "child")
        if j == 3:
            e.raise_py("KeyboardInterrupt", "child")
        e.raise_py("SystemExit", "child")
    eng.spec.contracts[CMD + "._child"] = child
    sess = eng.new_dict()
    try:
        eng.call(eng.getattr(cmd, "_run"), [t.ref, sess])
        eng.prove(False, "the child never returns into the parent's program")
    except ChildEnd as c:
        if c.how == "exit":
            eng.prove(isinstance(c.arg, VInt), "the exit status is a number")
            eng.prove(models.binop(eng, "Mod", c.arg, VInt(256)).t != 0, "a child that does not execute its program exits with failure")
    except PyExc as e:
        eng.prove(False, "the child never returns into the parent's program")

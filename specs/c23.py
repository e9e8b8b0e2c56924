"""C23 pipelines sent to another machine.

What pickle is given and what it makes of it: an object is restored from what
__reduce__/__getstate__ gave, its parts having been restored in the same way
(the protocol of pickle, assumed).  So the contract of each kind of object is
that restoring from its state gives an equal one; then the command line that
ssh gets, and what it does on the other side."""
from pyvc.lib import *
from pyvc.engine import Unsupported, PyExc
from pyvc.spec import Property

P = Property("C23", trusted=[
    "the pickle protocol: an object is restored by calling the function __reduce_ex__ (or copyreg) names with its arguments and giving the state to __setstate__, or else setting the attributes; parts are pickled and restored before in the same way; functions and classes go by name",
    "base64: decoding inverts encoding, the text consists of A-Z a-z 0-9 + / =",
    "ssh HOST WORDS passes the words, joined, to a shell on that host",
    "DescribableObject: attributes of pipeline objects behave like those of ordinary objects (C03)",
])
B_ = "pieshell.pipeline."
BASE = B_ + "base.Pipeline"
DO = B_ + "base.DescribableObject"
CMD, FN, BC = B_ + "command.Command", B_ + "function.Function", B_ + "command.BaseCommand"
PIPE, GROUP, CR = B_ + "pipe.Pipe", B_ + "group.Group", B_ + "redirect.CmdRedirect"
SUB, REMOTE = B_ + "builtins.SubShell", B_ + "builtins.Remote"
ENV = "pieshell.environ.Environment"
S_ = z3.StringSort()
PICKLE = z3.Function("pickled", U, S_)
B64 = z3.Function("base64", S_, S_)
B64CHARS = z3.Star(z3.Union(z3.Range("A", "Z"), z3.Range("a", "z"), z3.Range("0", "9"), z3.Re("+"), z3.Re("/"), z3.Re("=")))

# what the constructors set, by class
KINDS = {
    CMD: ["_arg", "_running_process"],
    BC: ["_arg", "_running_process"],
    SUB: ["_arg", "_running_process"],
    REMOTE: ["_arg", "_running_process"],
    PIPE: ["src", "dst"],
    GROUP: ["a", "b"],
    CR: ["pipeline", "cmd_redirects"],
    FN: ["function", "_arg", "_kw"],
}
RUNNING = ("_running_process", "_running_processes")


def spec():
    s = base_spec()
    s.contracts[B_ + "base.pipeline_repr"] = lambda eng, o: VStr(eng.fresh_str("repr"))
    return s


def opaque(eng, name):
    return VOpaque(eng.fresh_u(name), types=["?"], label=name)


def unchanged(eng, obj, before, name):
    now = eng.heap[obj.oid].attrs
    for k in sorted(set(now) | set(before)):
        eng.prove(k in now and k in before and same_val(eng, now[k], before[k]), name)


def valid(eng, cond):
    return eng.query(z3.Not(cond))[0] == z3.unsat


def same_object(eng, a, b):
    a, b = eng.force(a), eng.force(b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.oid == b.oid
    return same_val(eng, a, b)


@P.target("a pipeline is restored with its class and everything it was made of",
          spec=spec, functions=[B_ + "base.describable_object_reduce", DO + ".__setstate__", DO + ".__new__", BC + ".__new__"])
def _(eng):
    kinds = sorted(KINDS)
    cname = kinds[eng.choose(len(kinds), "class")]
    cls = eng.cls(cname)
    attrs = {"_env": eng.new_obj(eng.cls(ENV)), "_started": VBool(eng.fresh_bool("started")), "__module__": NONE}
    for a in KINDS[cname]:
        attrs[a] = opaque(eng, a)
    if eng.choose(2, "has run") == 1:
        # of processes only (pickling what runs is not possible)
        for a in ("_running_process", "_running_processes", "_redirects", "_pid"):
            attrs[a] = opaque(eng, a)
    elif "_running_process" in attrs and eng.choose(2, "_running_process") == 0:
        attrs["_running_process"] = NONE
    attrs["note"] = opaque(eng, "note")             # set by the user
    p = eng.new_obj(cls, **attrs)
    before = dict(eng.heap[p.oid].attrs)
    red = eng.force(eng.call(eng.module_attr(B_ + "base", "describable_object_reduce"), [p]))
    unchanged(eng, p, before, "the original stays as it is")
    eng.prove(isinstance(red, VTuple) and red.rope.is_concrete and len(red.rope.concrete()) in (2, 3, 4, 5), "function, arguments and state")
    parts = red.rope.concrete()
    made = eng.force(eng.call(parts[0], list(models.iter_rope(eng, parts[1]).concrete())))
    eng.prove(isinstance(made, Ref) and made.oid != p.oid and eng.class_of(made) is cls, "an object of its class, of its own")
    if len(parts) > 2 and not isinstance(eng.force(parts[2]), VNone):
        state = eng.force(parts[2])
        # nothing that runs is sent
        eng.call(eng.getattr(made, "__setstate__"), [state])
    now = eng.heap[made.oid].attrs
    for a in sorted(before):
        if a.startswith("__") or a in RUNNING:
            continue
        eng.prove(a in now and same_object(eng, now[a], before[a]), "every attribute: " + a)
    eng.prove(not any(a in now and same_object(eng, now[a], before[a]) for a in RUNNING if a in before and not isinstance(eng.force(before[a]), VNone)),
              "nothing that runs is sent")
    if "_running_process" in KINDS[cname]:
        eng.prove("_running_process" in now and isinstance(eng.force(now["_running_process"]), VNone), "it is not running there")
    unchanged(eng, p, before, "the original stays as it is")


@P.target("an environment is sent with its settings, without its scope and what runs in it", spec=spec, functions=[ENV + ".__getstate__"])
def _(eng):
    dead = ("_scope", "running_pipelines", "last_pipeline")
    attrs = {a: opaque(eng, a) for a in ("_exports_value", "_redirects", "_bashfunctions", "_dir_cache", "_scope", "running_pipelines", "note")}
    attrs["_cwd"] = VStr(eng.fresh_str("cwd"))
    attrs["_interactive"] = VBool(eng.fresh_bool("interactive"))
    if eng.choose(2, "exports of its own") == 0:
        attrs["_exports_value"] = NONE
    if eng.choose(2, "something has run") == 1:
        attrs["last_pipeline"] = eng.new_obj(eng.cls(B_ + "running.RunningPipeline"), pipeline=opaque(eng, "value"))
    env = eng.new_obj(eng.cls(ENV), **attrs)
    before = dict(eng.heap[env.oid].attrs)
    st = eng.force(eng.call(eng.getattr(env, "__getstate__"), []))
    unchanged(eng, env, before, "the original stays as it is")
    c = eng.content(st) if isinstance(st, Ref) else None
    eng.prove(isinstance(c, DictRep), "a dictionary")
    got = {}
    for k, v in models.iter_pairs(eng, st):
        got[models.sconst(eng.force(k))] = v
    for a in sorted(before):
        if a not in dead:
            eng.prove(a in got and same_object(eng, got[a], before[a]), "every setting: " + a)
    eng.prove(set(got) <= set(before), "nothing else")
    eng.prove("_scope" in got and isinstance(eng.force(got["_scope"]), VNone), "it has no scope there")
    rp = eng.force(got.get("running_pipelines", NONE))
    eng.prove(isinstance(rp, Ref) and isinstance(eng.content(rp), Rope), "no pipeline runs there")
    eng.prove(eng.content(rp).length() == 0, "no pipeline runs there")
    eng.prove("last_pipeline" not in got or isinstance(eng.force(got["last_pipeline"]), VNone), "no pipeline has run there")


@P.target("objects being restored: attributes they do not have yet are missing", spec=spec,
          functions=["pieshell.environ.R.__getattr__", "pieshell.redir.SpecialRedirect.__getattr__", "pieshell.redir.Redirects.__getattr__", ENV + ".__getattr__"])
def _(eng):
    classes = ("pieshell.environ.R", "pieshell.redir.SpecialRedirect", "pieshell.redir.PIPE", "pieshell.redir.TMP", "pieshell.redir.STRING",
               "pieshell.redir.Redirects", "pieshell.redir.Redirect", ENV)
    cls = eng.cls(classes[eng.choose(len(classes), "class")])
    eng.spec.depth_limit = 30
    o = eng.new_obj(cls)
    try:
        eng.getattr(o, "__setstate__")
    except PyExc as e:
        eng.prove(eng.exc_matches(eng.force(e.value), eng.extclass("builtins.AttributeError")), "missing")
    else:
        eng.prove(eng.lookup_class(cls, "__setstate__") is not None, "missing")
    unchanged(eng, o, {}, "nothing changes")


class Sent(object):
    def __init__(self, eng):
        self.eng = eng
        sp = eng.spec
        sp.ext["pickle.dumps"] = self.dumps
        sp.ext["base64.b64encode"] = self.encode
        self.pipeline = opaque(eng, "pipeline")
        self.b64 = B64(PICKLE(self.pipeline.t))
        eng.assume(z3.InRe(self.b64, B64CHARS))
        # ASCII is encoded and decoded as itself
        eng.assume(z3.And(models.encode(eng, self.b64) == self.b64, models.decode(eng, self.b64) == self.b64))
        self.text = z3.Concat(S("pieshell --pcmd='"), self.b64, S("'"))

    def dumps(self, eng, o, *a, **k):
        o = eng.force(o)
        if not isinstance(o, VOpaque):
            raise Unsupported("pickling something else")
        return VBytes(PICKLE(o.t))

    def encode(self, eng, b, *a):
        return VBytes(B64(eng.force(b).t))


@P.target("remote: ssh gets the words and the pipeline, and is what runs", spec=spec, functions=[REMOTE + "._run"])
def _(eng):
    w = Sent(eng)
    runs = []
    REG = B_ + "builtin.BuiltinRegistry"
    eng.spec.contracts[REG + ".get_by_name"] = lambda e, *a: NONE      # ssh is not a builtin
    RS = "pieshell.redir.Redirects"
    out = eng.new_obj(eng.cls(RS))
    procs = opaque(eng, "processes")

    def run(e, self, redirects, sess, indentation=None, **k):
        runs.append((self, redirects, sess))
        e.setattr(self, "_redirects", out)
        return procs
    for c in (CMD, BC):
        eng.spec.contracts[c + "._run"] = run
    env = eng.new_obj(eng.cls(ENV), _cwd=VStr(eng.fresh_str("cwd")), _interactive=VBool(eng.fresh_bool("interactive")), _scope=NONE)
    f = z3.Function(eng.fresh_name("word"), z3.IntSort(), U)
    words = SymSeq(eng, eng.fresh_name("words"), at=lambda i: VOpaque(f(i), types=["?"], label="word"))
    rope = Rope([Elems([VStr(S("remote"))]), Chunk(words), Elems([w.pipeline])])
    cmd = eng.new_obj(eng.cls(REMOTE), _env=env, _arg=eng.new_list(rope), _running_process=NONE, _started=VBool(False))
    redirects = eng.new_obj(eng.cls(RS))
    sess = opaque(eng, "session")
    arg = eng.force(eng.getattr(cmd, "_arg"))
    res = eng.force(eng.call(eng.getattr(cmd, "_run"), [redirects, sess]))
    eng.prove(len(runs) == 1, "one command is started")
    c, r, s = runs[0]
    eng.prove(same_object(eng, r, redirects), "with the redirections given")
    eng.prove(same_object(eng, s, sess), "in the run's session")
    eng.prove(same_object(eng, res, procs), "its processes are those of the run")
    eng.prove(same_object(eng, eng.getattr(cmd, "_redirects"), out), "its descriptors are those of the run")
    eng.prove(eng.class_of(eng.force(c)) is eng.cls(CMD), "an external program")
    eng.prove(same_object(eng, eng.getattr(c, "_env"), env), "in the same environment")
    got = models.iter_rope(eng, eng.getattr(c, "_arg"))
    if valid(eng, got.length() > words.n + 2):
        raise Unsupported("a command line of several words: what a shell makes of it is not known")
    eng.prove(got.length() == words.n + 2, "ssh, the words, the command")
    first = eng.force(models.index_rope(eng, got, I(0)))
    eng.prove(isinstance(first, VStr), "ssh")
    eng.prove(first.t == S("ssh"), "ssh")
    i = eng.fresh_int("i")
    if eng.decide(z3.And(i >= 0, i < words.n), "a word"):
        v = eng.force(models.index_rope(eng, got, i + 1))
        eng.prove(isinstance(v, VOpaque), "every word as it is, in order")
        eng.prove(v.t == f(i), "every word as it is, in order")
    last = eng.force(models.index_rope(eng, got, words.n + 1))
    eng.prove(isinstance(last, VStr), "one command line")
    # the same words for a shell
    forms = [z3.Concat(S(a + "--pcmd=" + q), w.b64, S(q)) for a in ("pieshell ", "pieshell --no-startup ") for q in ("'", '"', "")]
    if not valid(eng, z3.Or([last.t == f for f in forms])) and valid(eng, z3.Contains(last.t, w.b64)):
        raise Unsupported("another command line: what a shell makes of it is not known")
    eng.prove(z3.Or([last.t == f for f in forms]), "pieshell with the whole pipeline, pickled, in base64, quoted")
    # neither expansion (C02) nor the shell changes it
    for ch in "%*?[":
        eng.prove(z3.Not(z3.InRe(last.t, z3.Concat(z3.Full(z3.ReSort(S_)), z3.Re(ch), z3.Full(z3.ReSort(S_))))), "nothing in it is expanded")
    now = models.iter_rope(eng, eng.getattr(cmd, "_arg"))
    eng.prove(now.length() == words.n + 2, "the arguments of remote stay as they are")
    eng.prove(same_object(eng, eng.getattr(cmd, "_arg"), arg), "the arguments of remote stay as they are")


@P.target("--pcmd: the pipeline that was sent is run", spec=spec, functions=["pieshell.shell.main"])
def _(eng):
    w = Sent(eng)
    ran = []
    loaded = []
    how = eng.choose(2, "outcome")

    def run(e, *a):
        ran.append(1)
        if how == 1:
            e.raise_py("Exception", "pipeline failed")
        return opaque(e, "running")
    there = VOpaque(eng.fresh_u("restored"), types=["?"], label="restored", attrs=["run_interactive", "run"],
                    methods={"run_interactive": run})

    def decode(e, b, *a):
        b = e.force(b)
        if e.decide(b.t == w.b64, "what was encoded"):
            return VBytes(PICKLE(w.pipeline.t))
        return VBytes(e.fresh_str("decoded"))

    def loads(e, b, *a):
        b = e.force(b)
        if e.decide(b.t == PICKLE(w.pipeline.t), "what was pickled"):
            loaded.append(1)
            return there
        e.raise_py("Exception", "unpickling error")
    eng.spec.ext["base64.b64decode"] = decode
    eng.spec.ext["pickle.loads"] = loads
    other = []
    def note(what):
        def h(e, *a, **k):
            other.append(what)
            return NONE
        return h
    exits = lambda e, *a: NONE
    vals = []
    def setitem(e, s, k, v):
        vals.append((k, v))
        return NONE
    scope = VOpaque(eng.fresh_u("scope"), types=["?"], label="envScope", attrs=["__enter__", "__exit__", "execute_startup", "execute_expr", "execute_file"],
                    methods={"__enter__": lambda e, s: s, "__exit__": lambda e, s, *a: False, "__setitem__": setitem,
                             "execute_startup": note("startup"), "execute_expr": note("expr"), "execute_file": note("file")})
    eng.globals[("pieshell.environ", "envScope")] = scope
    argv = [VStr(S("pieshell")), VStr(z3.Concat(S("--pcmd="), w.b64))]
    eng.spec.ext_attrs["sys.argv"] = lambda e: e.new_list(Rope([Elems(argv)]))
    eng.spec.contracts["builtins.print"] = note("print")
    exc = None
    try:
        eng.call(eng.module_attr("pieshell.shell", "main"), [])
    except PyExc as e:
        exc = e
    eng.prove(len(loaded) == 1 and len(ran) == 1, "it is run, once")
    eng.prove((exc is not None) == (how == 1), "its failure is that of the program")
    eng.prove(not [o for o in other if o not in ("startup",)], "nothing else is run")

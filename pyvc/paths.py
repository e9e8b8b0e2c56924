"""Model of os.path and the working directory.  isabs, join and the part of
expanduser, normpath and abspath that depends only on a leading "/" or "~" are
exact; the rest of normpath and expanduser is uninterpreted (with the laws
below); exists, isdir are arbitrary predicates of the path."""
import z3

from .values import *
from .engine import PyExc, StarArg
from . import models

SS = z3.StringSort()
EXPU = z3.Function("expanduser", SS, SS)
NORM = z3.Function("normpath", SS, SS)
EXISTS = z3.Function("exists", SS, z3.BoolSort())
ISDIR = z3.Function("isdir", SS, z3.BoolSort())


def sw(t, c):
    return z3.PrefixOf(S(c), t)


def text(eng, v):
    v = eng.force(v)
    if isinstance(v, VOpaque) and "__fspath__" in v.methods:
        v = v.methods["__fspath__"](eng, v)
    if not isinstance(v, VStr):
        eng.raise_py("TypeError", "expected str, bytes or os.PathLike object")
    return v.t


def norm(eng, t):
    r = NORM(t)
    eng.assume(z3.And(sw(r, "/") == sw(t, "/"), NORM(r) == r, r != S("")))
    if z3.is_string_value(t):
        import posixpath
        eng.assume(r == S(posixpath.normpath(t.as_string())))
    return r


def ite(eng, c, a, b):
    """If(c, a, b) without a case split; decided conditions are dropped."""
    c = z3.simplify(c)
    if z3.is_true(c) or not z3.is_false(c) and eng.query(z3.Not(c))[0] == z3.unsat:
        return a()
    if z3.is_false(c) or eng.query(c)[0] == z3.unsat:
        return b()
    return z3.If(c, a(), b())


def join2(eng, a, b):
    return ite(eng, sw(b, "/"), lambda: b, lambda: z3.simplify(z3.Concat(
        a, ite(eng, z3.Or(a == S(""), z3.SuffixOf(S("/"), a)), lambda: S(""), lambda: S("/")), b)))


def expanduser(eng, t):
    return ite(eng, sw(t, "~"), lambda: EXPU(t), lambda: t)


def cwd(eng):
    """The interpreter's own working directory."""
    if "proccwd" not in eng.ghost:
        t = z3.String("process_cwd")
        eng.assume(z3.And(sw(t, "/"), NORM(t) == t))
        eng.ghost["proccwd"] = t
    return eng.ghost["proccwd"]


def abspath(eng, t):
    return norm(eng, ite(eng, sw(t, "/"), lambda: t, lambda: join2(eng, cwd(eng), t)))


def resolve(eng, base, t):
    """Specification: path t taken against directory base."""
    t = expanduser(eng, t)
    return abspath(eng, join2(eng, base, t))


def a_dir(eng, tag):
    """An arbitrary absolute normalised directory name."""
    t = eng.fresh_str(tag)
    eng.assume(z3.And(sw(t, "/"), NORM(t) == t))
    eng.inputs.append((tag, t))
    return t


def install(s):
    def w(f):
        def h(eng, v, *a, **k):
            return VStr(f(eng, text(eng, v)))
        return h

    def join(eng, *args):
        if any(isinstance(a, StarArg) for a in args):
            rope = Rope([])
            for a in args:
                rope = rope + (a.rope if isinstance(a, StarArg) else Rope([Elems([a])]))
            r = eng.fresh_str("joined")
            eng.extstate.setdefault("joins", []).append((rope, r))
            return VStr(r)
        t = text(eng, args[0])
        for a in args[1:]:
            t = join2(eng, t, text(eng, a))
        return VStr(t)

    def pred(f):
        def h(eng, v):
            t = text(eng, v)
            eng.assume(z3.Implies(ISDIR(t), EXISTS(t)))
            return VBool(f(t))
        return h

    def chdir(eng, v):
        t = text(eng, v)
        eng.extstate.setdefault("chdir", []).append(t)
        eng.assume(z3.Implies(ISDIR(t), EXISTS(t)))
        if not eng.decide(ISDIR(t), "chdir: directory") or eng.choose(2, "chdir fails") == 1:
            eng.extstate["chdir"].pop()
            eng.raise_py("OSError", "chdir")
        eng.ghost_set("proccwd", t)
        return NONE
    s.ext.update({
        "os.path.join": join, "os.path.expanduser": w(expanduser), "os.path.normpath": w(norm),
        "os.path.abspath": w(abspath), "os.path.isabs": lambda eng, v: VBool(sw(text(eng, v), "/")),
        "os.path.exists": pred(EXISTS), "os.path.isdir": pred(ISDIR), "os.chdir": chdir,
        "os.getcwd": lambda eng: VStr(cwd(eng)), "os.fspath": lambda eng, v: VStr(text(eng, v)),
    })
    return s

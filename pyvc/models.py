"""Semantics of Python's built-in types and functions, and the hook through
which a specification supplies contracts for external calls."""
import ast
import builtins as pybuiltins
import errno as _errno
import fcntl as _fcntl
import os as _os
import select as _select
import signal as _signal

import z3

from .values import *

T, F = z3.BoolVal(True), z3.BoolVal(False)

CONST_MODULES = {"os": _os, "signal": _signal, "errno": _errno, "select": _select, "fcntl": _fcntl}

SIGNALFD_CONST = {"SIG_BLOCK": 0, "SIG_UNBLOCK": 1, "SIG_SETMASK": 2, "SFD_CLOEXEC": 0o2000000, "SFD_NONBLOCK": 0o4000}

SAMPLES = {VStr: "", VBytes: b"", VInt: 0, VBool: False, VNone: None, VTuple: ()}

TYPE_NAMES = {
    VStr: ("builtins.str",), VBytes: ("builtins.bytes",), VInt: ("builtins.int",),
    VBool: ("builtins.bool", "builtins.int"), VNone: ("builtins.NoneType", "types.NoneType"), VTuple: ("builtins.tuple",),
    VFunc: ("types.FunctionType", "types.LambdaType"), VBound: ("types.MethodType",),
    VClass: ("builtins.type",), VModule: ("types.ModuleType",),
    VGen: ("types.GeneratorType",), VCoro: ("types.CoroutineType",),
}


class VGenCM(V):
    """contextlib.contextmanager object: the un-run generator."""
    __slots__ = ("gen",)

    def __init__(self, gen):
        self.gen = gen


class VView(VTuple):
    __slots__ = ()


class VIter(VView):
    """Iterator over a sequence, some items of which have been taken."""
    __slots__ = ("pos", "depth")


def unsup(*a):
    raise Unsupported(" ".join(str(x) for x in a))


# ------------------------------------------------------------- narrowing

def narrow(eng, v):
    """A Val term whose constructor is implied by the path condition."""
    v = eng.force(v)
    if not isinstance(v, VVal):
        return v
    for rec, mk in ((Val.is_s, lambda t: VStr(Val.s_v(t))), (Val.is_y, lambda t: VBytes(Val.y_v(t))),
                    (Val.is_i, lambda t: VInt(Val.i_v(t))), (Val.is_b, lambda t: VBool(Val.b_v(t))),
                    (Val.is_none, lambda t: NONE)):
        if eng.query(z3.Not(rec(v.t)))[0] == z3.unsat:
            return mk(v.t)
    return v


# ------------------------------------------------------------- isinstance

def isinst(eng, v, t):
    """z3 Bool: isinstance(v, t)."""
    from .engine import ClassInfo, ExtClass
    if isinstance(v, VCase):
        return case_bool(v, lambda a: isinst(eng, a, t))
    v = eng.force(v)
    t = eng.force(t)
    if isinstance(t, VTuple):
        return z3.Or([isinst(eng, v, x) for x in t.items] or [F])
    if isinstance(t, VClass):
        c = eng.class_of(v)
        if c is not None:
            return z3.BoolVal(eng.is_subclass(c, t.info))
        if isinstance(v, VOpaque):
            return opaque_inst(v, t.info.qualname)
        return F
    if not isinstance(t, VExt):
        unsup("isinstance with", t)
    name = t.name
    if name == "builtins.object":
        return T
    if isinstance(v, VVal):
        rec = {"builtins.str": Val.is_s, "builtins.bytes": Val.is_y, "builtins.bool": Val.is_b}.get(name)
        if rec is not None:
            return rec(v.t)
        if name == "builtins.int":
            return z3.Or(Val.is_i(v.t), Val.is_b(v.t))
        return z3.And(Val.is_o(v.t), z3.Function("isinst_" + name, U, z3.BoolSort())(Val.o_v(v.t)))
    c = eng.class_of(v)
    if c is not None:
        return z3.BoolVal(eng.is_subclass(c, eng.extclass(name)))
    if isinstance(v, VOpaque):
        return opaque_inst(v, name)
    if isinstance(v, VNative):
        return z3.BoolVal(name in v.types or name.split("builtins.")[-1] in v.types)
    for k, names in TYPE_NAMES.items():
        if isinstance(v, k):
            return z3.BoolVal(name in names)
    if isinstance(v, VExt):
        if name == "builtins.type" and v.name.startswith("builtins."):
            import builtins
            return z3.BoolVal(isinstance(getattr(builtins, v.name.split(".")[1], None), type))
        return F
    return F


def opaque_inst(v, name):
    """isinstance of an opaque object: known classes; with "?" among the
    types, of any class but those listed with a leading "-"."""
    if name in v.types or name.split("builtins.")[-1] in v.types:
        return T
    if "?" in v.types and "-" + name not in v.types and "-" + name.split("builtins.")[-1] not in v.types:
        return z3.Function("isinst_" + name, U, z3.BoolSort())(v.t)
    return F


def case_bool(v, fn):
    """Bool of a VCase, without branching."""
    res = None
    for c, th in reversed(v.alts):
        x = fn(th())
        res = x if res is None else z3.If(c, x, res)
    return z3.simplify(res)


def int_term(eng, v):
    """(term, condition under which v is an int)."""
    if isinstance(v, VCase):
        res, ok = None, None
        for c, th in reversed(v.alts):
            t, o = int_term(eng, th())
            res, ok = (t, o) if res is None else (z3.If(c, t, res), z3.If(c, o, ok))
        return z3.simplify(res), z3.simplify(ok)
    v = eng.force(v)
    if isinstance(v, VInt):
        return v.t, T
    if isinstance(v, VBool):
        return z3.If(v.t, I(1), I(0)), T
    return I(0), F


def issub(eng, v, t):
    if isinstance(v, VCase):
        return case_bool(v, lambda a: issub(eng, a, t) if isinstance(a, (VClass, VExt)) else unsup("issubclass of a non-class"))
    v, t = eng.force(v), eng.force(t)
    if isinstance(t, VTuple):
        return z3.Or([issub(eng, v, x) for x in t.items] or [F])
    tc = t.info if isinstance(t, VClass) else eng.extclass(t.name)
    if isinstance(v, VClass):
        return z3.BoolVal(eng.is_subclass(v.info, tc))
    if isinstance(v, VExt):
        return z3.BoolVal(eng.is_subclass(eng.extclass(v.name), tc))
    if isinstance(v, (Ref, FRef)):
        # an instance of a type-derived class (DescribableObject) used as a class
        return z3.BoolVal(tc.name in ("builtins.type", "builtins.object"))
    eng.raise_py("TypeError", "issubclass() arg 1 must be a class")


# ------------------------------------------------------------- attributes

def ext_attr(eng, v, name):
    full = "%s.%s" % (v.name, name)
    sp = eng.spec
    if sp is not None and full in sp.ext_attrs:
        return sp.ext_attrs[full](eng)
    if (full,) in eng.extstate:
        return eng.extstate[(full,)]
    if sp is not None and full in sp.ext:
        return VExt(full)
    if v.name in CONST_MODULES:
        c = getattr(CONST_MODULES[v.name], name, None)
        if isinstance(c, int) and not isinstance(c, bool):
            return VInt(int(c))
        if isinstance(c, str):
            return VStr(c)
        if c is None and not hasattr(CONST_MODULES[v.name], name):
            eng.raise_py("AttributeError", full)
    if v.name == "signalfd" and name in SIGNALFD_CONST:
        return VInt(SIGNALFD_CONST[name])
    if v.name.startswith("builtins.") and name in ("__name__", "__module__"):
        return VStr(v.name.split(".")[1] if name == "__name__" else "builtins")
    return VExt(full)


def builtin_attr(eng, v, name):
    if isinstance(v, VOpaque):
        if name in v.methods:
            m = v.methods[name]
            if callable(m) and not isinstance(m, V):
                return VBound(VNative(m, name), v)
            return m
        if "?" in v.types:
            unsup("attribute %s of" % name, v)
        eng.raise_py("AttributeError", "%s on opaque value %s" % (name, v.label))
    if isinstance(v, VNative):
        if isinstance(v.attrs, dict) and name in v.attrs:
            return v.attrs[name]
        if name in ("__name__", "__module__", "__doc__"):
            return VStr(eng.fresh_str("native" + name))
        eng.raise_py("AttributeError", name)
    if isinstance(v, VVal):
        v = narrow(eng, v)
        if isinstance(v, VVal):
            unsup("attribute", name, "of a value of unknown type")
    if isinstance(v, VMethodKind):
        return eng.getattr(v.func, name)
    if isinstance(v, VAttrDict):
        return VBuiltinMethod(v, name)
    if isinstance(v, VGen):
        if name in ("__iter__", "__next__", "send", "close", "throw") and not v.is_async or \
           name in ("__aiter__", "__anext__", "asend", "aclose", "athrow") and v.is_async:
            return VBuiltinMethod(v, name)
        eng.raise_py("AttributeError", name)
    if isinstance(v, VCoro):
        if name in ("__await__", "send", "close", "throw"):
            return VBuiltinMethod(v, name)
        eng.raise_py("AttributeError", name)
    for k, s in SAMPLES.items():
        if isinstance(v, k):
            if name == "__class__":
                return VExt("builtins." + type(s).__name__)
            if hasattr(s, name):
                return VBuiltinMethod(v, name)
            eng.raise_py("AttributeError", "%s has no attribute %s" % (type(s).__name__, name))
    if isinstance(v, VBuiltinMethod):
        eng.raise_py("AttributeError", name)
    unsup("attribute", name, "of", v)


def ext_base_method(eng, ref, name):
    from .engine import ExtClass
    for c in eng.mro(ref.cls):
        if not isinstance(c, ExtClass):
            continue
        if c.name.startswith("builtins.") and c.py is not None:
            hook = eng.spec.ext_methods.get((c.name, name)) if eng.spec else None
            if hook:
                return VBound(VNative(hook, name), ref)
            if name == "args" and issubclass(c.py, BaseException):
                return VTuple([])
            if c.py is type and name == "__module__":
                return VStr("")
            if c.py is type and name == "__name__":
                return VStr("")
            if hasattr(c.py, name) and name not in ("__module__", "__doc__", "__class_getitem__"):
                if c.py is object and name in ("__init__", "__new__", "__setattr__", "__getattribute__", "__repr__",
                                               "__str__", "__eq__", "__hash__", "__delattr__", "__dir__", "__reduce__",
                                               "__reduce_ex__", "__format__", "__ne__", "__sizeof__"):
                    return VBuiltinMethod(ref, name)
                if c.py is not object:
                    return VBuiltinMethod(ref, name)
            if name in ("errno", "strerror", "filename", "characters_written") and issubclass(c.py, OSError):
                return NONE
            if name in ("__traceback__", "__cause__", "__context__") and issubclass(c.py, BaseException):
                return NONE
        else:
            hook = eng.spec.ext_methods.get((c.name, name)) if eng.spec else None
            if hook:
                return VBound(VNative(hook, name), ref)
    if name in ("__init__", "__setattr__", "__getattribute__", "__delattr__"):
        return VBuiltinMethod(ref, name)
    return None


def ext_new(eng, ci):
    from .engine import ExtClass
    content = None
    for c in eng.mro(ci):
        if isinstance(c, ExtClass):
            if c.name in ("builtins.list", "builtins.set"):
                content = Rope()
            elif c.name in ("builtins.dict", "collections.OrderedDict"):
                content = DictRep()
    return eng.alloc(ci, content)


def ext_init(eng, obj, args, kwargs):
    from .engine import ExtClass
    for c in eng.mro(obj.cls):
        if isinstance(c, ExtClass):
            h = eng.spec.ext.get(c.name + ".__init__")
            if h:
                h(eng, obj, *args, **kwargs)
                return
            if c.name == "builtins.list" and args:
                eng.set_content(obj, iter_rope(eng, args[0]))
                return
            if c.name == "builtins.dict":
                if args:
                    dict_update(eng, obj, args[0])
                for k, v in kwargs.items():
                    eng.set_content(obj, dict_set(eng, eng.content(obj), VStr(k), v))
                return
            if c.py is not None and issubclass(c.py, BaseException):
                eng.heap[obj.oid].attrs["args"] = VTuple(list(args))
                return
    # object.__init__ ignores surplus arguments when __new__ is overridden
    if (args or kwargs) and not eng.lookup_class(obj.cls, "__new__"):
        eng.raise_py("TypeError", "object() takes no arguments")


# ------------------------------------------------------------- calls

def call_ext(eng, name, args, kwargs):
    from .engine import StarArg
    sp = eng.spec
    if sp is not None:
        ex = sp.may_raise.get(name)
        if ex is not None and eng.choose(2, "%s raises" % name) == 1:
            eng.raise_py(ex, name)
        h = sp.ext.get(name)
        if h is not None:
            if any(isinstance(a, StarArg) for a in args):
                return h(eng, *args, **kwargs)
            return h(eng, *args, **kwargs)
    h = BUILTINS.get(name)
    if h is not None:
        return h(eng, *args, **kwargs)
    short = name.split(".")[-1]
    import builtins
    if name.startswith("builtins."):
        py = getattr(builtins, short, None)
        if isinstance(py, type) and issubclass(py, BaseException):
            r = eng.alloc(eng.extclass(name))
            eng.heap[r.oid].attrs["args"] = VTuple(list(args))
            eng.heap[r.oid].extra = short
            if issubclass(py, OSError) and args and len(args) >= 2:
                eng.heap[r.oid].attrs["errno"] = args[0]
            return r
        # builtins.dict.__getitem__ and the like
        parts = name.split(".")
        if len(parts) == 3 and parts[1] in ("dict", "list", "str", "object", "type", "set"):
            if parts[1] == "object" and parts[2] == "__setattr__":
                eng.set_raw(eng.force(args[0]), args[1].t.as_string(), args[2])
                return NONE
            if parts[1] == "object" and parts[2] == "__getattribute__":
                return eng.getattr(args[0], args[1].t.as_string())
            if parts[1] == "object" and parts[2] == "__new__":
                return ext_new(eng, eng.force(args[0]).info)
            if parts[1] == "type" and parts[2] == "__new__":
                c = eng.force(args[0])
                if isinstance(c, VClass):
                    return eng.alloc(c.info)
                unsup("type.__new__ of", c)
            return call_method(eng, eng.force(args[0]), parts[2], args[1:], kwargs, builtin=True)
    unsup("call of external", name)


def b_isinstance(eng, v, t):
    return VBool(z3.simplify(isinst(eng, v, t)))


def b_hasattr(eng, v, n):
    from .engine import SENTINEL
    v = eng.force(v)
    if isinstance(v, VOpaque):
        a = n.t.as_string()
        if "?" in v.attrs and a not in v.attrs and a not in v.methods:
            return VBool(z3.Function("hasattr_" + a, U, z3.BoolSort())(v.t))
        return VBool(a in v.attrs or a in v.methods)
    if isinstance(v, VNative):
        return VBool(n.t.as_string() in v.attrs)
    if isinstance(v, VVal):
        f = z3.Function("hasattr_" + n.t.as_string(), Val, z3.BoolSort())
        return VBool(f(v.t))
    if isinstance(v, (VFunc, VBound)) and n.t.as_string() in ("__iter__", "__next__", "__aiter__", "__anext__", "__await__"):
        return VBool(False)
    if isinstance(v, VExt):
        import importlib
        full = "%s.%s" % (v.name, n.t.as_string())
        if full in eng.spec.ext_attrs or full in eng.spec.ext:
            return VBool(True)
        py = type(None) if v.name == "builtins.NoneType" else getattr(pybuiltins, v.name[9:], None) if v.name.startswith("builtins.") else None
        if isinstance(py, type):
            # (Python 3.9 runs the code: object.__getstate__ is newer)
            return VBool(hasattr(py, n.t.as_string()) and n.t.as_string() != "__getstate__")
        unsup("hasattr on", v)
    if isinstance(v, VClass):
        from .engine import ExtClass
        name = n.t.as_string()
        if eng.lookup_class(v.info, name) or (v.info, "$set", name) in eng.classattrs or name in ("__name__", "__module__"):
            return VBool(True)
        found = False
        for b in eng.mro(v.info):
            if isinstance(b, ExtClass):
                py = getattr(pybuiltins, b.name[9:], None) if b.name.startswith("builtins.") else None
                if py is None:
                    unsup("hasattr on a class derived from", b.name)
                found = found or hasattr(py, name)
        return VBool(found or hasattr(type, name))
    marker = VNative(None, "missing")
    return VBool(eng.getattr(v, n.t.as_string(), marker) is not marker)


def b_getattr(eng, v, n, *d):
    n = eng.force(n)
    if not (isinstance(n, VStr) and z3.is_string_value(n.t)):
        h = eng.spec.ext.get("getattr-symbolic") if eng.spec else None
        if h:
            return h(eng, v, n, *d)
        unsup("getattr with a symbolic name")
    if d:
        return eng.getattr(v, n.t.as_string(), d[0])
    return eng.getattr(v, n.t.as_string())


def b_setattr(eng, v, n, x):
    if not z3.is_string_value(n.t):
        unsup("setattr with a symbolic name")
    eng.setattr(v, n.t.as_string(), x)
    return NONE


def b_len(eng, v):
    v = narrow(eng, v)
    if isinstance(v, (VStr, VBytes)):
        return VInt(z3.simplify(z3.Length(v.t)))
    if isinstance(v, VTuple):
        return VInt(v.rope.length())
    if isinstance(v, (Ref, FRef)):
        c = eng.content(v)
        if isinstance(c, Rope):
            if isinstance(v.cls.name, str) and v.cls.name.endswith("set"):
                if len([s for s in c.segs]) > 1 or (c.segs and not c.is_concrete):
                    unsup("len of symbolic set")
            return VInt(c.length())
        if isinstance(c, DictRep):
            return VInt(dict_len(eng, c))
    if isinstance(v, VAttrDict):
        unsup("len of __dict__")
    if isinstance(v, VOpaque) and "__len__" in v.methods:
        return v.methods["__len__"](eng, v)
    unsup("len of", v)


def b_list(eng, v=None):
    return eng.new_list(iter_rope(eng, v) if v is not None else Rope())


def b_tuple(eng, v=None):
    return VTuple(iter_rope(eng, v) if v is not None else Rope())


def b_set(eng, v=None):
    return eng.alloc(eng.extclass("builtins.set"), dedup(eng, iter_rope(eng, v)) if v is not None else Rope())


def dedup(eng, rope):
    if not rope.is_concrete:
        return rope
    out = []
    for x in rope.concrete():
        if not any(eng.decide(eng.eq(x, y)) for y in out):
            out.append(x)
    return Rope([Elems(out)])


def b_dict(eng, v=None, **kw):
    r = eng.new_dict()
    if v is not None:
        dict_update(eng, r, v)
    for k, x in kw.items():
        setitem(eng, r, VStr(k), x)
    return r


def b_str(eng, v=None, *a, **kw):
    if v is None:
        return VStr("")
    if a or kw:
        v = narrow(eng, v)
        if not isinstance(v, VBytes):
            unsup("text with an encoding of", v)
        return bytes_method(eng, v, "decode", list(a), kw)
    return VStr(to_str(eng, v, "str"))


def b_repr(eng, v):
    return VStr(to_str(eng, v, "repr"))


def b_bytes(eng, v=None, *a, **kw):
    if v is None:
        return VBytes(b"")
    v = narrow(eng, v)
    if isinstance(v, VBytes):
        return v
    if isinstance(v, VStr):
        return str_method(eng, v, "encode", list(a), kw)
    if isinstance(v, (Ref, FRef)):
        hit = eng.lookup_class(v.cls, "__bytes__")
        if hit:
            return eng.call(eng.bind(hit[1], v, hit[0]), [], {})
        if isinstance(v, Ref) and isinstance(eng.content(v), Rope) and eng.content(v).is_concrete:
            ns = [eng.force(x) for x in eng.content(v).concrete()]
            if all(isinstance(x, VInt) and z3.is_int_value(z3.simplify(x.t)) for x in ns):
                ns = [z3.simplify(x.t).as_long() for x in ns]
                if any(n < 0 or n > 255 for n in ns):
                    eng.raise_py("ValueError", "bytes must be in range(0, 256)")
                return VBytes(bytes(ns))
    unsup("bytes of", v)


def b_int(eng, v=None, *a, **kw):
    v = narrow(eng, v)
    c = sconst(v) if isinstance(v, (VStr, VBytes)) else None
    if c is not None:
        base = [eng.force(x) for x in list(a) + list(kw.values())]
        if len(base) <= 1 and all(isinstance(x, VInt) and z3.is_int_value(z3.simplify(x.t)) for x in base):
            try:
                return VInt(int(c, *[z3.simplify(x.t).as_long() for x in base]))
            except ValueError:
                eng.raise_py("ValueError", "invalid literal for int()")
    if isinstance(v, VInt):
        return v
    if isinstance(v, VBool):
        return VInt(z3.If(v.t, I(1), I(0)))
    unsup("int of", v)


def b_bool(eng, v=None):
    return VBool(eng.truthy(v))


def b_type(eng, *a):
    if len(a) != 1:
        unsup("three-argument type()")
    v = eng.force(a[0])
    c = eng.class_of(v)
    from .engine import ClassInfo
    if c is not None:
        return VClass(c) if isinstance(c, ClassInfo) else VExt(c.name)
    for k, names in TYPE_NAMES.items():
        if isinstance(v, k):
            return VExt(names[0])
    if isinstance(v, VOpaque) and "__class__" in v.methods:
        return v.methods["__class__"]
    if isinstance(v, VOpaque):
        f = z3.Function("type_of", U, U)
        def inst(eng, self, *args, **kw):
            unsup("call of the type of an opaque value")
        return VOpaque(f(v.t), label="type", methods={"__call__": inst, "__name__": VStr(eng.fresh_str("typename"))})
    if isinstance(v, VExt):
        return VOpaque(z3.Const("type_of_" + v.name, U), label="type", methods={"__name__": VStr("type")})
    unsup("type of", v)


def b_iter(eng, v, *a):
    v = eng.force(v)
    if a:
        unsup("iter() with a sentinel")
    if isinstance(v, VGen):
        return v
    if isinstance(v, (Ref, FRef)):
        hit = eng.lookup_class(v.cls, "__iter__") if hasattr(v.cls, "bindings") else None
        if hit:
            return eng.call(eng.bind(hit[1], v, hit[0]), [], {})
    if isinstance(v, VOpaque) and "__iter__" in v.methods:
        return eng.call(eng.getattr(v, "__iter__"), [], {})
    if isinstance(v, VIter):
        return v
    r = VIter(iter_rope(eng, v))
    r.pos, r.depth = 0, len(eng.loops)
    return r


class GenKill(BaseException):
    pass


class GenStep(object):
    """A generator of the code under verification, run step by step: its body
    runs in a thread of its own, strictly alternating with the caller."""

    def __init__(self, eng, g):
        import threading
        self.eng, self.g, self.end, self.kill, self.ev = eng, g, False, False, None
        self.me, self.caller = threading.Semaphore(0), threading.Semaphore(0)
        threading.stack_size(256 << 20)
        self.th = threading.Thread(target=self.body, daemon=True)
        self.th.start()
        eng.live_gens.append(self)

    def body(self):
        self.me.acquire()
        try:
            if not self.kill:
                self.g.run(self.on_yield)
                self.ev = ("end", None)
        except GenKill:
            self.ev = ("end", None)
        except BaseException as e:
            self.ev = ("raise", e)
        self.end = True
        self.caller.release()

    def on_yield(self, v):
        self.ev = ("yield", v)
        self.caller.release()
        self.me.acquire()
        if self.kill:
            raise GenKill()
        return NONE

    def step(self):
        eng = self.eng
        if self.end:
            return ("end", None)
        d, lo, ha = eng.depth, eng.loops, eng.handling
        eng.loops, eng.handling = getattr(self, "loops", []), list(ha)
        self.me.release()
        self.caller.acquire()
        self.loops = eng.loops
        eng.depth, eng.loops, eng.handling = d, lo, ha
        return self.ev

    def close(self):
        if not self.end:
            self.kill = True
            self.me.release()
            self.th.join()


def gen_next(eng, g):
    if isinstance(g.started, bool):
        if g.started:
            unsup("generator already iterated")
        g.started = GenStep(eng, g)
    k, v = g.started.step()
    if k == "yield":
        return v
    if k == "raise":
        raise v
    eng.raise_py("StopAsyncIteration" if g.is_async else "StopIteration")


def b_next(eng, v, *d):
    from .engine import PyExc
    v = eng.force(v)
    if d and not isinstance(v, VTuple):
        try:
            return b_next(eng, v)
        except PyExc as e:
            if not eng.exc_matches(e.value, eng.extclass("builtins.StopIteration")):
                raise
            return d[0]
    if isinstance(v, VGen):
        return gen_next(eng, v)
    if isinstance(v, VTuple):
        pos = 0
        if isinstance(v, VIter):
            if len(eng.loops) != v.depth:
                unsup("next() in a loop on an iterator from outside of it")
            pos = v.pos
            v.pos += 1
        if eng.decide(v.rope.length() <= pos):
            if d:
                return d[0]
            eng.raise_py("StopIteration")
        return index_rope(eng, v.rope, I(pos))
    if isinstance(v, (Ref, FRef)):
        hit = eng.lookup_class(v.cls, "__next__") if hasattr(v.cls, "bindings") else None
        if hit:
            return eng.call(eng.bind(hit[1], v, hit[0]), [], {})
    if isinstance(v, VOpaque) and "__next__" in v.methods:
        return eng.call(eng.getattr(v, "__next__"), [], {})
    unsup("next of", v)


def _extreme(eng, args, kw, ismax):
    if kw:
        unsup("max with key")
    rope = iter_rope(eng, args[0]) if len(args) == 1 else Rope([Elems(list(args))])
    m = eng.fresh_int("max" if ismax else "min")
    alts = []
    for s in rope.segs:
        if isinstance(s, Elems):
            for v in s.items:
                v = narrow(eng, v)
                if isinstance(v, VBool):
                    v = b_int(eng, v)
                if not isinstance(v, VInt):
                    unsup("max of", v)
                eng.assume(m >= v.t if ismax else m <= v.t)
                alts.append(m == v.t)
        else:
            if isinstance(s, FilterSeg):
                pass
            alts.append(s)
            def fact(idx, s=s):
                v = eng.force(s.seq.at(eng, idx)) if False else None
            s_ = s

            def bound(idx, s=s_):
                e, ok = int_term(eng, s.seq.at_noreg(eng, idx))
                rng = z3.And(idx >= s.off, idx < s.off + s.n)
                if not z3.is_true(ok) and eng.query(z3.And(rng, z3.Not(ok)))[0] != z3.unsat:
                    unsup("max of a non-number")
                eng.assume(z3.Implies(rng, m >= e if ismax else m <= e))
            eng.add_fact(s.seq, bound)
    if not alts:
        eng.raise_py("ValueError", "max() arg is an empty sequence")
    k = eng.choose(len(alts), "max attained")
    a = alts[k]
    if isinstance(a, z3.ExprRef):
        eng.assume(a)
    else:
        j = eng.fresh_int("argmax")
        eng.assume(z3.And(j >= a.off, j < a.off + a.n))
        e, ok = int_term(eng, a.seq.at(eng, j))
        eng.assume(m == e)
    if len([x for x in alts if not isinstance(x, z3.ExprRef)]) == len(alts):
        if eng.decide(rope.length() <= 0):
            eng.raise_py("ValueError", "empty")
    return VInt(m)


class FilterSeg(object):
    pass


def _anyall(eng, v, isany):
    rope = iter_rope(eng, v)
    b = eng.fresh_bool("any" if isany else "all")
    ts = []
    chunks = []
    for s in rope.segs:
        if isinstance(s, Elems):
            ts += [eng.truthy(x) for x in s.items]
        else:
            chunks.append(s)
    if not chunks:
        return VBool(z3.simplify(z3.Or(ts + [F]) if isany else z3.And(ts + [T])))
    # fork: witness somewhere, or nowhere
    alts = len(chunks) + 2
    k = eng.choose(alts, "any")
    if k == 0:          # no witness
        for t in ts:
            eng.assume(z3.Not(t) if isany else t)
        for s in chunks:
            def f(idx, s=s):
                inside = z3.And(idx >= s.off, idx < s.off + s.n)
                try:
                    t = eng.truthy(s.seq.at_noreg(eng, idx))
                except Unsupported:
                    # defined for the elements only
                    if not eng.decide(inside, "an element"):
                        return
                    t = eng.truthy(s.seq.at_noreg(eng, idx))
                eng.assume(z3.Implies(inside, z3.Not(t) if isany else t))
            eng.add_fact(s.seq, f)
        return VBool(not isany)
    if k == 1:
        eng.assume(z3.Or(ts + [F]) if isany else z3.Or([z3.Not(t) for t in ts] + [F]))
        return VBool(isany)
    s = chunks[k - 2]
    j = eng.fresh_int("wit")
    eng.assume(z3.And(j >= s.off, j < s.off + s.n))
    t = eng.truthy(s.seq.at(eng, j))
    eng.assume(t if isany else z3.Not(t))
    return VBool(isany)


def b_range(eng, *a):
    a = [b_int(eng, x).t for x in a]
    if len(a) == 3:
        if not (z3.is_int_value(z3.simplify(a[2])) and z3.simplify(a[2]).as_long() == 1):
            if all(z3.is_int_value(z3.simplify(x)) for x in a):
                return VView([VInt(i) for i in range(*[z3.simplify(x).as_long() for x in a])])
            unsup("range step")
        a = a[:2]
    if len(a) == 1:
        a = [I(0), a[0]]
    return VRange(z3.simplify(a[0]), z3.simplify(a[1]))


def b_enumerate(eng, v, start=None):
    rope = iter_rope(eng, v)
    out = []
    pos = start.t if start is not None else I(0)
    for s in rope.segs:
        if isinstance(s, Elems):
            for x in s.items:
                out.append(Elems([VTuple([VInt(z3.simplify(pos)), x])]))
                pos = pos + 1
        else:
            base = pos

            def at(idx, s=s, base=base):
                return VTuple([VInt(z3.simplify(base + idx)), s.seq.at(eng, s.off + idx)])
            out.append(Chunk(SymSeq(eng, s.seq.tag + ".enumerate", n=s.n, at=at)))
            pos = pos + s.n
    return VView(Rope(out))


def b_zip(eng, *a, **kw):
    ropes = [iter_rope(eng, x) for x in a]
    if all(r.is_concrete for r in ropes):
        return VView([VTuple(list(t)) for t in zip(*[r.concrete() for r in ropes])])
    if all(len(r.segs) == 1 and isinstance(r.segs[0], Chunk) for r in ropes) and \
       all(r.segs[0].n.eq(ropes[0].segs[0].n) for r in ropes):
        ss = [r.segs[0] for r in ropes]
        return VView(Rope([Chunk(SymSeq(eng, ss[0].seq.tag + ".zip", n=ss[0].n,
                                        at=lambda idx: VTuple([s.seq.at(eng, s.off + idx) for s in ss])))]))
    if not kw:
        # as long as the shortest
        n = z3.simplify(ropes[0].length())
        for r in ropes[1:]:
            m = z3.simplify(r.length())
            if not n.eq(m) and not eng.decide(n <= m, "the shorter one"):
                n = m
        whole = [r.segs[0].seq.tag + "." for r in ropes if len(r.segs) == 1 and isinstance(r.segs[0], Chunk)]
        return VView(Rope([Chunk(SymSeq(eng, (whole or [""])[0] + "zip", n=n, at=lambda idx: VTuple([index_rope(eng, r, idx) for r in ropes])))]))
    unsup("zip of symbolic sequences")


def b_sorted(eng, v, key=None, reverse=None):
    rope = iter_rope(eng, v)
    back = reverse is not None and eng.branch(reverse)
    if rope.is_concrete:
        items = rope.concrete()
        def k(x):
            y = eng.call(key, [x], {}) if key is not None else x
            y = eng.force(y)
            if isinstance(y, VTuple):
                return tuple(z3.simplify(z.t).as_string() if isinstance(z, VStr) else z3.simplify(z.t).as_long() for z in y.items)
            if isinstance(y, VStr) and z3.is_string_value(z3.simplify(y.t)):
                return z3.simplify(y.t).as_string()
            if isinstance(y, VInt) and z3.is_int_value(z3.simplify(y.t)):
                return z3.simplify(y.t).as_long()
            raise ValueError
        try:
            return eng.new_list(sorted(items, key=k, reverse=back))
        except ValueError:
            if len(items) <= 1:
                return eng.new_list(items)
            unsup("sorted of symbolic values")
    h = eng.spec.ext.get("sorted-symbolic") if eng.spec else None
    if h and not back:
        return h(eng, rope, key)
    unsup("sorted of a symbolic sequence")


def b_id(eng, v):
    v = eng.force(v)
    if isinstance(v, Ref):
        return VInt(I(10 ** 6 + v.oid))
    return VInt(z3.Function("id_of", Val, z3.IntSort())(eng.enc(v)))


def b_callable(eng, v):
    v = eng.force(v)
    if isinstance(v, (VFunc, VBound, VNative, VClass, VBuiltinMethod)):
        return VBool(True)
    if isinstance(v, VOpaque):
        return VBool("__call__" in v.attrs or "__call__" in v.methods)
    if isinstance(v, (Ref, FRef)):
        return VBool(eng.lookup_class(v.cls, "__call__") is not None)
    if isinstance(v, VExt):
        unsup("callable of", v)
    return VBool(False)


def b_noop(eng, *a, **k):
    return NONE


def b_local(eng, *a, **k):
    return eng.alloc(eng.extclass("threading.local"))


def b_reversed(eng, v):
    rope = iter_rope(eng, v)
    return VView(list(reversed(rope.concrete())))


def b_sum(eng, v, start=None):
    if start is not None:
        acc = start
    else:
        acc = VInt(0)
    for x in iter_rope(eng, v).concrete():
        acc = binop(eng, "Add", acc, x)
    return acc


def b_map(eng, f, v):
    rope = iter_rope(eng, v)
    if rope.is_concrete:
        return VView([eng.call(f, [x], {}) for x in rope.concrete()])
    return VView(lazy_map(eng, rope, lambda x: eng.call(f, [x], {})))


def b_filter(eng, f, v):
    rope = iter_rope(eng, v)
    if rope.is_concrete:
        return VView([x for x in rope.concrete()
                      if eng.branch(eng.call(f, [x], {}) if not isinstance(f, VNone) else x)])
    unsup("filter() of symbolic sequence")


BUILTINS = {
    "builtins.isinstance": b_isinstance, "builtins.hasattr": b_hasattr, "builtins.getattr": b_getattr,
    "builtins.setattr": b_setattr, "builtins.len": b_len, "builtins.list": b_list, "builtins.tuple": b_tuple,
    "builtins.set": b_set, "builtins.frozenset": b_set, "builtins.dict": b_dict, "builtins.str": b_str,
    "builtins.repr": b_repr, "builtins.bytes": b_bytes, "builtins.int": b_int, "builtins.bool": b_bool,
    "builtins.type": b_type, "builtins.iter": b_iter, "builtins.next": b_next,
    "builtins.max": lambda eng, *a, **k: _extreme(eng, a, k, True),
    "builtins.min": lambda eng, *a, **k: _extreme(eng, a, k, False),
    "builtins.any": lambda eng, v: _anyall(eng, v, True),
    "builtins.all": lambda eng, v: _anyall(eng, v, False),
    "builtins.range": b_range, "builtins.enumerate": b_enumerate, "builtins.zip": b_zip,
    "builtins.sorted": b_sorted, "builtins.id": b_id, "builtins.callable": b_callable,
    "builtins.issubclass": lambda eng, a, b: VBool(issub(eng, a, b)),
    "builtins.print": b_noop, "builtins.reversed": b_reversed, "builtins.sum": b_sum,
    "builtins.object": lambda eng: eng.alloc(eng.extclass("builtins.object")),
    "builtins.map": b_map, "builtins.filter": b_filter,
    "threading.local": b_local, "builtins.abs": lambda eng, v: VInt(z3.If(v.t < 0, -v.t, v.t)),
    "traceback.format_exc": lambda eng, *a: VStr(eng.fresh_str("tb")),
    "traceback.print_exc": b_noop,
    "typing.cast": lambda eng, t, v: v,
}


def _seq_at_noreg(self, eng, idx):
    """Element without registering the index (used from facts)."""
    idx = z3.simplify(idx)
    k = str(idx)
    if k not in self._memo:
        self._memo[k] = self._at(idx) if self._at else VVal(self.seqterm(eng)[idx])
    return self._memo[k]


SymSeq.at_noreg = _seq_at_noreg


# ------------------------------------------------------------- methods

def call_method(eng, obj, name, args, kwargs, builtin=False):
    obj = narrow(eng, obj)
    args = [eng.force(a) if isinstance(a, VLazy) else a for a in args]
    if isinstance(obj, VStr):
        return str_method(eng, obj, name, args, kwargs)
    if isinstance(obj, VBytes):
        return bytes_method(eng, obj, name, args, kwargs)
    if isinstance(obj, VProperty):
        p = VProperty(obj.fget, obj.fset, obj.fdel)
        setattr(p, {"setter": "fset", "deleter": "fdel", "getter": "fget"}[name], args[0])
        return p
    if isinstance(obj, VTuple):
        if name == "count" and obj.rope.is_concrete:
            return VInt(z3.Sum([z3.If(eng.eq(x, args[0]), I(1), I(0)) for x in obj.items] or [I(0)]))
        if name == "__len__":
            return b_len(eng, obj)
        if name == "__iter__":
            return obj
        if name == "index":
            for i, x in enumerate(obj.items):
                if eng.decide(eng.eq(x, args[0])):
                    return VInt(i)
            eng.raise_py("ValueError", "index")
    if isinstance(obj, VAttrDict):
        return attrdict_method(eng, obj, name, args)
    if isinstance(obj, VClass):
        if name == "__new__":
            return ext_new(eng, eng.force(args[0]).info)
        if name == "__init__":
            return NONE
    if isinstance(obj, (Ref, FRef)):
        if name == "__setattr__":
            eng.set_raw(obj, args[0].t.as_string(), args[1])
            return NONE
        if name == "__getattribute__":
            return eng.getattr(obj, args[0].t.as_string())
        if name == "__new__":
            c = eng.force(args[0])
            if len(args) == 4 or True:
                return ext_new(eng, c.info)
        if name in ("__repr__", "__str__"):
            return VStr(to_str_default(eng, obj, name.strip("_")))
        c = eng.content(obj)
        if isinstance(c, Rope):
            if obj.cls.name.endswith("set"):
                return set_method(eng, obj, name, args)
            return list_method(eng, obj, name, args, kwargs)
        if isinstance(c, DictRep):
            return dict_method(eng, obj, name, args, kwargs)
        if name == "__init__":
            ext_init(eng, obj, args, kwargs) if not isinstance(obj, FRef) else None
            return NONE
        if name == "__dir__":
            return eng.new_list([])
        if name == "__eq__":
            return VBool(eng.same(obj, args[0]))
        if name == "__hash__":
            return b_id(eng, obj)
        if name == "with_traceback":
            return obj
    if isinstance(obj, VGen):
        if name in ("__aiter__", "__iter__"):
            return obj
        if name in ("close", "aclose"):
            obj.started = True
            return NONE
        if name == "__next__":
            return gen_next(eng, obj)
        if name == "__anext__":
            return VCoro(lambda: gen_next(eng, obj), obj.name + ".__anext__")
    if isinstance(obj, VCoro) and name == "__await__":
        return obj
    unsup("method", name, "of", obj)


_enc = z3.Function("utf8_encode", z3.StringSort(), z3.StringSort())
_dec = z3.Function("utf8_decode", z3.StringSort(), z3.StringSort())


def encode(eng, t):
    t = z3.simplify(t)
    if z3.is_string_value(t) and pystr(t).isascii():
        return t
    r = _enc(t)
    eng.assume(_dec(r) == t)
    return r


def decode(eng, t):
    t = z3.simplify(t)
    if z3.is_string_value(t) and pystr(t).isascii():
        return t
    return _dec(t)


def _codec(eng, args, kwargs):
    """(encoding, errors) of encode/decode, as constants"""
    def const(v, default):
        if v is None:
            return default
        c = sconst(narrow(eng, v))
        if c is None:
            unsup("an encoding that is not known")
        return c.lower().replace("_", "-")
    a = dict(zip(("encoding", "errors"), args), **kwargs)
    e = const(a.get("encoding"), "utf-8")
    return {"utf8": "utf-8", "us-ascii": "ascii", "latin1": "latin-1", "iso-8859-1": "latin-1"}.get(e, e), const(a.get("errors"), "strict")


_ASCII = z3.Star(z3.Range(S("\x00"), S("\x7f")))


def recode(eng, t, args, kwargs, way):
    """encode or decode with the encoding that is named: only UTF-8, or text that is certainly ASCII, is known;
    anything else is some text or bytes of which nothing is known"""
    e, errors = _codec(eng, args, kwargs)
    f = encode if way == "encode" else decode
    if (e, errors) == ("utf-8", "strict"):
        return f(eng, t)
    t = z3.simplify(t)
    if e in ("utf-8", "ascii", "latin-1"):
        if z3.is_string_value(t) and pystr(t).isascii():
            return f(eng, t)
        if eng.query(z3.Not(z3.InRe(t, _ASCII)))[0] == z3.unsat:
            return f(eng, t)
    return ufun("%s_%s_%s" % (way, e, errors), t)


def sconst(v):
    v = z3.simplify(v.t)
    return pystr(v) if z3.is_string_value(v) else None


def ufun(name, *terms, rng=None):
    f = z3.Function(name, *([t.sort() for t in terms] + [z3.StringSort() if rng is None else rng]))
    return f(*terms)


def last_part(eng, t, sep):
    """What follows the last separator (a single character)."""
    a, b = ufun("before_last", t, sep), ufun("last_part", t, sep)
    eng.assume(z3.And(z3.Implies(z3.Contains(t, sep), t == z3.Concat(a, sep, b)),
                      z3.Implies(z3.Not(z3.Contains(t, sep)), b == t), z3.Not(z3.Contains(b, sep))))
    return b


def _text_method(eng, obj, name, args, kwargs, mk):
    K = type(obj)
    t = obj.t
    consts = [sconst(obj)] + [sconst(a) if isinstance(a, (VStr, VBytes)) else
                              (z3.simplify(a.t).as_long() if isinstance(a, VInt) and z3.is_int_value(z3.simplify(a.t)) else None)
                              for a in args]
    if all(c is not None for c in consts) and not kwargs and name not in ("join", "format", "encode", "decode"):
        r = getattr(consts[0], name, None)
        if r is not None:
            try:
                r = r(*consts[1:])
            except ValueError as e:
                eng.raise_py("ValueError", str(e))
            return from_py(eng, r, mk)
    if name in ("startswith", "endswith"):
        f = z3.PrefixOf if name == "startswith" else z3.SuffixOf
        pats = args[0].items if isinstance(args[0], VTuple) else [args[0]]
        if len(args) > 1:
            unsup(name, "with offsets")
        return VBool(z3.simplify(z3.Or([f(narrow(eng, p).t, t) for p in pats] or [F])))
    if name == "join":
        rope = iter_rope(eng, args[0])
        if not rope.is_concrete:
            h = eng.spec.ext.get("join-symbolic") if eng.spec else None
            if h:
                return h(eng, obj, rope)
            return mk(ufun("join_" + K.__name__, t, eng.enc_rope(rope)))
        items = [narrow(eng, x) for x in rope.concrete()]
        out = []
        for i, x in enumerate(items):
            if not isinstance(x, K):
                eng.raise_py("TypeError", "join: item %d is not a string" % i)
            if i:
                out.append(t)
            out.append(x.t)
        if not out:
            return mk(S(""))
        return mk(z3.simplify(z3.Concat(*out)) if len(out) > 1 else out[0])
    if name in ("split", "rsplit", "partition", "rpartition"):
        sep = args[0] if args else None
        mx = args[1] if len(args) > 1 else kwargs.get("maxsplit")
        if name == "partition" or (name == "split" and sep is not None and not isinstance(sep, VNone) and mx is not None
                                   and z3.is_int_value(z3.simplify(mx.t)) and z3.simplify(mx.t).as_long() == 1):
            if eng.decide(z3.Contains(t, sep.t), "split"):
                a, b = eng.fresh_str("pre"), eng.fresh_str("post")
                eng.assume(t == z3.Concat(a, sep.t, b))
                eng.extstate.setdefault("splits", []).append((t, a, sep.t, b))
                # the first occurrence: no separator ends before len(a) + len(sep)
                sc = sconst(sep)
                if sc is not None and len(sc) == 1:
                    eng.assume(z3.Not(z3.Contains(a, sep.t)))
                    st = []
                    todo = [z3.simplify(t)]
                    while todo:
                        y = todo.pop(0)
                        if z3.is_app_of(y, z3.Z3_OP_SEQ_CONCAT):
                            todo[0:0] = [y.arg(j) for j in range(y.num_args())]
                        else:
                            st.append(y)
                    if len(st) > 1 and z3.is_string_value(st[-1]) and pystr(st[-1]) == sc:
                        # (x + sep).split(sep, 1) is [x, ""] when x has no sep
                        x = st[:-1]
                        x = z3.Concat(*x) if len(x) > 1 else x[0]
                        eng.assume(z3.Implies(z3.Not(z3.Contains(x, sep.t)), z3.And(a == x, b == S(""))))
                else:
                    eng.assume(z3.IndexOf(t, sep.t, 0) == z3.Length(a))
                return eng.new_list([mk(a), mk(b)]) if name == "split" else VTuple([mk(a), sep, mk(b)])
            return eng.new_list([obj]) if name == "split" else VTuple([obj, mk(S("")), mk(S(""))])
        h = eng.spec.ext.get("split-symbolic") if eng.spec else None
        if h:
            return h(eng, obj, name, args, kwargs)
        sc = sconst(sep) if isinstance(sep, K) else None
        if sc is None or len(sc) != 1:
            unsup(name, "on a symbolic string")
        if name == "rpartition" or name == "rsplit" and mx is not None and z3.is_true(z3.simplify(mx.t == 1)):
            if eng.decide(z3.Contains(t, sep.t), "split"):
                a, b = mk(ufun("before_last", t, sep.t)), mk(last_part(eng, t, sep.t))
                return eng.new_list([a, b]) if name == "rsplit" else VTuple([a, sep, b])
            return eng.new_list([obj]) if name == "rsplit" else VTuple([mk(S("")), mk(S("")), obj])
        if mx is None:
            # all parts: at least one, the last one known
            last = last_part(eng, t, sep.t)
            n = ufun("parts", t, sep.t, rng=z3.IntSort())
            eng.assume(z3.And(n >= 1, (n == 1) == z3.Not(z3.Contains(t, sep.t))))
            at = z3.Function("part", z3.StringSort(), z3.StringSort(), z3.IntSort(), z3.StringSort())
            seq = SymSeq(eng, "split", n=n, at=lambda i: mk(z3.If(i == n - 1, last, at(t, sep.t, i))))
            return eng.new_list(Rope([Chunk(seq)]))
        unsup(name, "on a symbolic string")
    if name == "replace" and len(args) == 2:
        return mk(ufun("py_replace", t, args[0].t, args[1].t))
    if name in ("strip", "lstrip", "rstrip", "lower", "upper", "title", "expandtabs", "capitalize", "casefold"):
        return mk(ufun("py_" + name, t, *[a.t for a in args if not isinstance(a, VNone)]))
    if name in ("find", "index"):
        if len(args) > 2:
            unsup(name, "with an end")
        off = args[1].t if len(args) > 1 else I(0)
        if name == "index" and not eng.decide(z3.IndexOf(t, args[0].t, off) >= 0):
            eng.raise_py("ValueError", "substring not found")
        return VInt(z3.IndexOf(t, args[0].t, off))
    if name in ("rfind", "rindex") and len(args) == 1:
        r = z3.LastIndexOf(t, args[0].t)
        if name == "rindex" and not eng.decide(z3.Contains(t, args[0].t)):
            eng.raise_py("ValueError", "substring not found")
        sc = sconst(args[0])
        if sc is not None and len(sc) == 1:
            b = last_part(eng, t, args[0].t)
            r = z3.If(z3.Contains(t, args[0].t), z3.Length(t) - z3.Length(b) - 1, I(-1))
        return VInt(r)
    if name == "count":
        return VInt(ufun("py_count", t, args[0].t, rng=z3.IntSort()))
    if name in ("isdigit", "isalpha", "isalnum", "isidentifier", "isspace", "islower", "isupper", "isascii", "isnumeric"):
        return VBool(ufun("py_" + name, t, rng=z3.BoolSort()))
    if name == "__len__":
        return b_len(eng, obj)
    if name == "__contains__":
        return VBool(z3.Contains(t, args[0].t))
    if name == "__iter__":
        return VView(iter_rope(eng, obj))
    if name == "__mod__":
        return binop(eng, "Mod", obj, args[0])
    if name == "__add__":
        return binop(eng, "Add", obj, args[0])
    if name == "__eq__":
        return VBool(eng.eq(obj, args[0]))
    unsup("method", name, "of a symbolic", K.__name__)


def str_method(eng, obj, name, args, kwargs):
    if name == "encode":
        return VBytes(recode(eng, obj.t, args, kwargs, "encode"))
    if name == "format":
        c = sconst(obj)
        if c is not None and not kwargs:
            parts = c.split("{}")
            if len(parts) == len(args) + 1 and all("{" not in p and "}" not in p for p in parts):
                out = [S(parts[0])]
                for a, p in zip(args, parts[1:]):
                    out += [to_str(eng, a, "str"), S(p)]
                return VStr(z3.simplify(z3.Concat(*out)))
        unsup("str.format")
    return _text_method(eng, obj, name, args, kwargs, VStr)


def bytes_method(eng, obj, name, args, kwargs):
    if name == "decode":
        may = eng.spec.may_raise.get("bytes.decode") if eng.spec else None
        if may is not None and eng.choose(2, "decode raises") == 1:
            eng.raise_py(may, "decode")
        return VStr(recode(eng, obj.t, args, kwargs, "decode"))
    return _text_method(eng, obj, name, args, kwargs, VBytes)


def from_py(eng, r, mk=VStr):
    if isinstance(r, bool):
        return VBool(r)
    if isinstance(r, int):
        return VInt(r)
    if isinstance(r, str):
        return mk(S(r))
    if isinstance(r, list):
        return eng.new_list([from_py(eng, x, mk) for x in r])
    if isinstance(r, tuple):
        return VTuple([from_py(eng, x, mk) for x in r])
    if r is None:
        return NONE
    unsup("constant", r)


def list_method(eng, obj, name, args, kwargs):
    c = eng.content(obj)
    if name == "append":
        eng.set_content(obj, c.append(args[0]))
        return NONE
    if name == "extend":
        eng.set_content(obj, c + iter_rope(eng, args[0]))
        return NONE
    if name in ("__iter__",):
        return VView(c)
    if name == "__len__":
        return b_len(eng, obj)
    if name == "__getitem__":
        return getitem(eng, obj, args[0])
    if name == "__setitem__":
        setitem(eng, obj, args[0], args[1])
        return NONE
    if name == "__contains__":
        return VBool(contains(eng, obj, args[0]))
    if name == "copy":
        return eng.new_list(c)
    if name == "clear":
        eng.set_content(obj, Rope())
        return NONE
    if name == "insert":
        ix = z3.simplify(args[0].t)
        if z3.is_int_value(ix) and ix.as_long() == 0:
            eng.set_content(obj, Rope([Elems([args[1]])]) + c)
            return NONE
        if c.is_concrete and z3.is_int_value(ix):
            items = c.concrete()
            items.insert(ix.as_long(), args[1])
            eng.set_content(obj, Rope([Elems(items)]))
            return NONE
        unsup("list.insert")
    if name == "pop":
        ix = z3.simplify(args[0].t) if args else I(-1)
        if eng.decide(c.length() <= 0, "pop from empty"):
            eng.raise_py("IndexError", "pop from empty list")
        if z3.is_int_value(ix) and ix.as_long() == -1 and c.segs and isinstance(c.segs[-1], Elems):
            last = c.segs[-1].items
            eng.set_content(obj, Rope(c.segs[:-1] + (Elems(last[:-1]),)))
            return last[-1]
        if z3.is_int_value(ix) and ix.as_long() == 0 and c.segs and isinstance(c.segs[0], Elems):
            first = c.segs[0].items
            eng.set_content(obj, Rope((Elems(first[1:]),) + c.segs[1:]))
            return first[0]
        if z3.is_int_value(ix) and ix.as_long() == -1 and c.segs:
            s = c.segs[-1]
            v = s.seq.at(eng, s.off + s.n - 1)
            if eng.decide(s.n > 0):
                eng.set_content(obj, Rope(c.segs[:-1] + (Chunk(s.seq, s.off, z3.simplify(s.n - 1)),)))
                return v
        if z3.is_int_value(ix) and ix.as_long() == 0 and c.segs:
            s = c.segs[0]
            if eng.decide(s.n > 0):
                v = s.seq.at(eng, s.off)
                eng.set_content(obj, Rope((Chunk(s.seq, z3.simplify(s.off + 1), z3.simplify(s.n - 1)),) + c.segs[1:]))
                return v
        unsup("list.pop")
    if name == "remove":
        if c.is_concrete:
            items = c.concrete()
            for i, x in enumerate(items):
                if eng.decide(eng.eq(x, args[0]), "remove"):
                    eng.set_content(obj, Rope([Elems(items[:i] + items[i + 1:])]))
                    return NONE
            eng.raise_py("ValueError", "list.remove(x): x not in list")
        h = eng.spec.ext.get("list.remove") if eng.spec else None
        if h:
            return h(eng, obj, args[0])
        for q, sg in enumerate(c.segs):
            if isinstance(sg, Chunk):
                j = eng.fresh_int("rm_" + sg.seq.tag)
                if not z3.is_false(z3.simplify(eng.eq(sg.seq.at(eng, j), args[0]))):
                    unsup("list.remove on a symbolic list")
                continue
            for i, x in enumerate(sg.items):
                if eng.decide(eng.eq(x, args[0]), "remove"):
                    eng.set_content(obj, Rope(c.segs[:q] + (Elems(sg.items[:i] + sg.items[i + 1:]),) + c.segs[q + 1:]))
                    return NONE
        eng.raise_py("ValueError", "list.remove(x): x not in list")
    if name == "sort":
        r = b_sorted(eng, obj, **kwargs)
        eng.set_content(obj, eng.content(r))
        return NONE
    if name == "reverse":
        eng.set_content(obj, Rope([Elems(list(reversed(c.concrete())))]))
        return NONE
    if name == "index":
        for i, x in enumerate(c.concrete()):
            if eng.decide(eng.eq(x, args[0])):
                return VInt(i)
        eng.raise_py("ValueError", "not in list")
    if name == "count":
        return VInt(z3.Sum([z3.If(eng.eq(x, args[0]), I(1), I(0)) for x in c.concrete()] or [I(0)]))
    unsup("list method", name)


def set_method(eng, obj, name, args):
    c = eng.content(obj)
    if name == "add":
        if not eng.decide(contains(eng, obj, args[0])):
            eng.set_content(obj, c.append(args[0]))
        return NONE
    if name == "update":
        for a in args:
            for x in iter_rope(eng, a).concrete():
                set_method(eng, obj, "add", [x])
        return NONE
    if name in ("discard", "remove"):
        items = c.concrete()
        for i, x in enumerate(items):
            if eng.decide(eng.eq(x, args[0])):
                eng.set_content(obj, Rope([Elems(items[:i] + items[i + 1:])]))
                return NONE
        if name == "remove":
            eng.raise_py("KeyError", "set.remove")
        return NONE
    if name == "__contains__":
        return VBool(contains(eng, obj, args[0]))
    if name == "copy":
        return eng.alloc(eng.extclass("builtins.set"), c)
    if name in ("union", "__or__"):
        r = eng.alloc(eng.extclass("builtins.set"), c)
        set_method(eng, r, "update", args)
        return r
    unsup("set method", name)


def attrdict_method(eng, obj, name, args):
    o = obj.obj
    if name == "items" and isinstance(o, Ref):
        return VView([VTuple([VStr(k), v]) for k, v in eng.heap[o.oid].attrs.items() if not k.startswith("$")])
    if name == "get":
        v = eng.get_raw(o, args[0].t.as_string())
        return v if v is not None else (args[1] if len(args) > 1 else NONE)
    if name == "keys" and isinstance(o, Ref):
        return VView([VStr(k) for k in eng.heap[o.oid].attrs if not k.startswith("$")])
    if name == "update" and isinstance(o, Ref):
        for k, v in iter_pairs(eng, args[0]):
            eng.set_raw(o, k.t.as_string(), v)
        return NONE
    if name == "copy" and isinstance(o, Ref):
        return eng.new_dict(DictRep(None, [(VStr(k), v) for k, v in eng.heap[o.oid].attrs.items() if not k.startswith("$")]))
    unsup("__dict__ method", name)


# ------------------------------------------------------------- dicts

def keyterm(eng, base, k):
    """Term of base's key sort for key k, or None if k can never be a key."""
    k = eng.force(k)
    s = base.keysort
    if isinstance(k, VVal):
        k = narrow(eng, k)
    if s == z3.IntSort():
        if isinstance(k, VInt):
            return k.t
        if isinstance(k, VBool):
            return z3.If(k.t, I(1), I(0))
        return None
    if s == z3.StringSort():
        if isinstance(k, VStr):
            return k.t
        return None
    if s == Val:
        return eng.enc(k)
    if s == U and isinstance(k, VOpaque):
        return k.t
    if isinstance(k, FRef) and k.key.sort() == s:
        return k.key
    return None


def dict_find(eng, rep, k):
    """Value or None (absent), branching as needed."""
    for ok, ov in reversed(rep.over):
        if eng.decide(eng.eq(k, ok), "key"):
            return None if ov is DictRep.DEL else ov
    if rep.base is None:
        return None
    t = keyterm(eng, rep.base, k)
    if t is None:
        return None
    if eng.decide(rep.base.has(t), "in %s" % rep.base.tag):
        return rep.base.value(t)
    return None


def dict_has(eng, rep, k):
    """z3 Bool: key present."""
    t = keyterm(eng, rep.base, k) if rep.base is not None else None
    r = rep.base.has(t) if t is not None else F
    for ok, ov in rep.over:
        r = z3.If(eng.eq(k, ok), F if ov is DictRep.DEL else T, r)
    return z3.simplify(r)


def dict_set(eng, rep, k, v):
    over = list(rep.over)
    for i, (ok, ov) in enumerate(over):
        if eng.decide(eng.eq(k, ok), "key"):
            if v is DictRep.DEL or ov is DictRep.DEL:
                del over[i]
                if v is not DictRep.DEL or rep.base is not None:
                    over.append((k, v))
            else:
                over[i] = (ok, v)
            return DictRep(rep.base, over)
    if v is DictRep.DEL and rep.base is None:
        return rep
    over.append((k, v))
    return DictRep(rep.base, over)


def flatten(eng, rep, tag=None):
    """SymDict equivalent to rep (iteration order unspecified)."""
    b = rep.base
    if not rep.over:
        return b
    key = ("flat", id(b), tuple((str(eng.enc(k)), id(v)) for k, v in rep.over))
    if key in eng.extstate:
        return eng.extstate[key]
    terms = [(keyterm(eng, b, k), v) for k, v in rep.over]
    if any(t is None for t, _ in terms):
        unsup("dict with keys of mixed types")

    def has(k):
        r = b.has(k)
        for t, v in terms:
            r = z3.If(k == t, F if v is DictRep.DEL else T, r)
        return r

    def value(k):
        for t, v in reversed(terms):
            if v is not DictRep.DEL and eng.decide(k == t, "key"):
                return v
        return b.value(k)
    d = SymDict(eng, tag or b.tag, b.keysort, value, b.keywrap, has=has)
    # every explicitly present key is somewhere in the order
    for t, v in terms:
        if v is not DictRep.DEL:
            d.touch_key(t)
    eng.extstate[key] = d
    eng.extstate[("keep", id(d))] = (rep, d)
    return d


def dict_keys_rope(eng, rep):
    if rep.base is None:
        return Rope([Elems([k for k, v in rep.over if v is not DictRep.DEL])])
    d = flatten(eng, rep)
    return Rope([Chunk(d.keyseq)])


def _derived(eng, d, kind):
    cache = d.__dict__.setdefault("_views", {})
    if kind not in cache:
        if kind == "values":
            at = lambda idx: d.value(_k(eng, d, idx))
        else:
            def at(idx):
                k = _k(eng, d, idx)
                return VTuple([d.keywrap(k), d.value(k)])
        cache[kind] = SymSeq(eng, d.tag + "." + kind, n=d.n, at=at)
        cache[kind].dict = d
        eng.derive(cache[kind], d.keyseq, I(0))
    return cache[kind]


def _k(eng, d, idx):
    d.keyseq.at(eng, idx)
    return d.key_at(idx)


def dict_values_rope(eng, rep):
    if rep.base is None:
        return Rope([Elems([v for k, v in rep.over if v is not DictRep.DEL])])
    return Rope([Chunk(_derived(eng, flatten(eng, rep), "values"))])


def dict_items_rope(eng, rep):
    if rep.base is None:
        return Rope([Elems([VTuple([k, v]) for k, v in rep.over if v is not DictRep.DEL])])
    return Rope([Chunk(_derived(eng, flatten(eng, rep), "items"))])


def dict_len(eng, rep):
    if rep.base is None:
        return I(len([1 for k, v in rep.over if v is not DictRep.DEL]))
    return flatten(eng, rep).n


def dict_rep(eng, v):
    v = eng.force(v)
    if isinstance(v, (Ref, FRef)):
        c = eng.content(v)
        if isinstance(c, DictRep):
            return c
    if isinstance(v, VAttrDict) and isinstance(v.obj, Ref):
        return DictRep(None, [(VStr(k), x) for k, x in eng.heap[v.obj.oid].attrs.items() if not k.startswith("$")])
    if isinstance(v, VOpaque) and "$dictrep" in v.methods:
        return v.methods["$dictrep"]
    unsup("not a dict:", v)


def iter_pairs(eng, v):
    v = eng.force(v)
    if isinstance(v, (Ref, FRef)) and isinstance(eng.content(v), DictRep):
        rep = eng.content(v)
        if rep.base is None:
            return [(k, x) for k, x in rep.over if x is not DictRep.DEL]
        unsup("iteration over the pairs of a symbolic dict")
    return [tuple(unpack(eng, p, 2)) for p in iter_rope(eng, v).concrete()]


def dict_update(eng, ref, other):
    other = eng.force(other)
    c = eng.content(ref)
    rep = None
    if isinstance(other, (Ref, FRef)) and isinstance(eng.content(other), DictRep):
        rep = eng.content(other)
    elif isinstance(other, VAttrDict) or (isinstance(other, VOpaque) and "$dictrep" in other.methods):
        rep = dict_rep(eng, other)
    if rep is not None and rep.base is not None:
        if c.base is None and not c.over:
            eng.set_content(ref, rep)
            return
        h = eng.spec.ext.get("dict.update-symbolic") if eng.spec else None
        if h:
            return h(eng, ref, rep)
        merged = merge_dicts(eng, c, rep)
        eng.set_content(ref, merged)
        return
    if rep is not None:
        pairs = [(k, x) for k, x in rep.over if x is not DictRep.DEL]
    else:
        pairs = iter_pairs(eng, other)
    for k, v in pairs:
        setitem(eng, ref, k, v)


def merge_dicts(eng, a, b):
    """Content of a after a.update(b), both possibly symbolic."""
    fb = flatten(eng, b)
    if a.base is not None:
        fa = flatten(eng, a)
        def has(k):
            return z3.Or(fa.has(k), fb.has(k))
        def value(k):
            if eng.decide(fb.has(k), "in %s" % fb.tag):
                return fb.value(k)
            return fa.value(k)
        return DictRep(SymDict(eng, fa.tag + "+" + fb.tag, fa.keysort, value, fa.keywrap, has=has))
    def has(k):
        r = F
        for ok, ov in a.over:
            t = keyterm(eng, fb, ok)
            r = z3.Or(r, k == t) if ov is not DictRep.DEL else r
        return z3.Or(r, fb.has(k))
    def value(k):
        if eng.decide(fb.has(k), "in %s" % fb.tag):
            return fb.value(k)
        for ok, ov in a.over:
            if eng.decide(k == keyterm(eng, fb, ok)):
                return ov
        unsup("merged dict value")
    return DictRep(SymDict(eng, "+" + fb.tag, fb.keysort, value, fb.keywrap, has=has))


def dict_method(eng, obj, name, args, kwargs):
    rep = eng.content(obj)
    if name == "get":
        v = dict_find(eng, rep, args[0])
        return v if v is not None else (args[1] if len(args) > 1 else NONE)
    if name in ("items",):
        return VView(dict_items_rope(eng, rep))
    if name in ("values",):
        return VView(dict_values_rope(eng, rep))
    if name in ("keys", "__iter__"):
        return VView(dict_keys_rope(eng, rep))
    if name == "pop":
        v = dict_find(eng, rep, args[0])
        if v is None:
            if len(args) > 1:
                return args[1]
            eng.raise_py("KeyError", "pop")
        eng.set_content(obj, dict_set(eng, rep, args[0], DictRep.DEL))
        return v
    if name == "setdefault":
        v = dict_find(eng, rep, args[0])
        if v is None:
            v = args[1] if len(args) > 1 else NONE
            eng.set_content(obj, dict_set(eng, rep, args[0], v))
        return v
    if name == "update":
        if args:
            dict_update(eng, obj, args[0])
        for k, v in kwargs.items():
            setitem(eng, obj, VStr(k), v)
        return NONE
    if name == "copy":
        return eng.new_dict(rep)
    if name == "clear":
        eng.set_content(obj, DictRep())
        return NONE
    if name == "__contains__":
        return VBool(dict_has(eng, rep, args[0]))
    if name == "__getitem__":
        v = dict_find(eng, rep, args[0])
        if v is None:
            eng.raise_py("KeyError", "key")
        return v
    if name == "__setitem__":
        eng.set_content(obj, dict_set(eng, rep, args[0], args[1]))
        return NONE
    if name == "__delitem__":
        if dict_find(eng, rep, args[0]) is None:
            eng.raise_py("KeyError", "key")
        eng.set_content(obj, dict_set(eng, rep, args[0], DictRep.DEL))
        return NONE
    if name == "__len__":
        return VInt(dict_len(eng, rep))
    unsup("dict method", name)


# ------------------------------------------------------------- items

def index_rope(eng, rope, ix):
    """Element at index ix (non-negative term, assumed in range)."""
    ix = z3.simplify(ix)
    pos = I(0)
    for k, s in enumerate(rope.segs):
        last = k == len(rope.segs) - 1
        if isinstance(s, Elems):
            for v in s.items:
                if eng.decide(ix == pos):
                    return v
                pos = z3.simplify(pos + 1)
        else:
            if last or eng.decide(ix < pos + s.n):
                return s.seq.at(eng, z3.simplify(s.off + ix - pos))
            pos = z3.simplify(pos + s.n)
    eng.raise_py("IndexError", "index out of range")


def getitem(eng, o, k):
    from .engine import ClassInfo
    o = narrow(eng, o)
    k = narrow(eng, k) if not isinstance(k, VSlice) else k
    if isinstance(o, VAttrDict):
        v = eng.get_raw(o.obj, k.t.as_string())
        if v is None:
            eng.raise_py("KeyError", k.t.as_string())
        return v
    if isinstance(o, (Ref, FRef)):
        if isinstance(o.cls, ClassInfo):
            hit = eng.lookup_class(o.cls, "__getitem__")
            if hit:
                return eng.call(eng.bind(hit[1], o, hit[0]), [k], {})
        c = eng.content(o)
        if isinstance(c, DictRep):
            v = dict_find(eng, c, k)
            if v is None:
                eng.raise_py("KeyError", "key")
            return v
        if isinstance(c, Rope):
            return rope_getitem(eng, c, k, lambda r: eng.new_list(r))
        hook = eng.spec.ext_methods.get((o.cls.qualname, "__getitem__")) if eng.spec else None
        if hook:
            return hook(eng, o, k)
    if isinstance(o, VTuple):
        return rope_getitem(eng, o.rope, k, lambda r: VTuple(r))
    if isinstance(o, (VStr, VBytes)):
        K = type(o)
        L = z3.Length(o.t)
        if isinstance(k, VSlice):
            if not isinstance(k.step, VNone):
                unsup("slice step")
            lo = clamp(eng, k.lo, I(0), L)
            hi = clamp(eng, k.hi, L, L)
            return K(z3.simplify(z3.SubString(o.t, lo, z3.If(hi > lo, hi - lo, I(0)))))
        if isinstance(k, (VInt, VBool)):
            i = b_int(eng, k).t
            i = z3.simplify(z3.If(i < 0, i + L, i))
            if not eng.decide(z3.And(i >= 0, i < L)):
                eng.raise_py("IndexError", "string index out of range")
            if K is VBytes:
                return VInt(z3.StrToCode(z3.SubString(o.t, i, 1)))
            return VStr(z3.SubString(o.t, i, I(1)))
    if isinstance(o, VOpaque) and "__getitem__" in o.methods:
        return o.methods["__getitem__"](eng, o, k)
    if isinstance(o, VNone):
        eng.raise_py("TypeError", "None is not subscriptable")
    unsup("subscript of", o)


def clamp(eng, v, default, L):
    if isinstance(v, VNone):
        return default
    t = v.t
    t = z3.If(t < 0, z3.If(t + L < 0, I(0), t + L), z3.If(t > L, L, t))
    return z3.simplify(t)


def rope_getitem(eng, rope, k, mk):
    if isinstance(k, VSlice):
        if not isinstance(k.step, VNone):
            unsup("slice step")
        if isinstance(k.lo, VNone) and isinstance(k.hi, VNone):
            return mk(rope)
        if rope.is_concrete:
            def c(v):
                if isinstance(v, VNone):
                    return None
                t = z3.simplify(v.t)
                if not z3.is_int_value(t):
                    unsup("symbolic slice bound")
                return t.as_long()
            return mk(Rope([Elems(rope.concrete()[c(k.lo):c(k.hi)])]))
        lo = z3.simplify(k.lo.t) if not isinstance(k.lo, VNone) else I(0)
        if isinstance(k.hi, VNone) and z3.is_int_value(lo) and lo.as_long() >= 0:
            return mk(drop(eng, rope, lo.as_long()))
        if isinstance(k.hi, VInt) and z3.is_int_value(lo) and lo.as_long() >= 0:
            hi = z3.simplify(k.hi.t)
            if z3.is_int_value(hi) and hi.as_long() < 0:
                if lo.as_long() > 0:
                    if not eng.decide(rope.length() >= lo.as_long() - hi.as_long(), "slice is not empty"):
                        return mk(Rope([]))
                    rope = drop(eng, rope, lo.as_long())
                m = -hi.as_long()
                if rope.segs and isinstance(rope.segs[-1], Elems) and len(rope.segs[-1].items) >= m:
                    return mk(Rope(rope.segs[:-1] + (Elems(rope.segs[-1].items[:-m]),)))
        unsup("slice of a symbolic sequence")
    if not isinstance(k, (VInt, VBool)):
        eng.raise_py("TypeError", "indices must be integers")
    L = rope.length()
    i = b_int(eng, k).t
    i = z3.simplify(z3.If(i < 0, i + L, i))
    if not eng.decide(z3.And(i >= 0, i < L), "index in range"):
        eng.raise_py("IndexError", "list index out of range")
    if rope.segs and isinstance(rope.segs[-1], Elems) and i.eq(z3.simplify(L - 1)):
        return rope.segs[-1].items[-1]
    return index_rope(eng, rope, i)


def drop(eng, rope, m):
    segs = list(rope.segs)
    while m > 0 and segs:
        s = segs[0]
        if isinstance(s, Elems):
            d = min(m, len(s.items))
            segs[0] = Elems(s.items[d:])
            m -= d
            if not segs[0].items:
                segs.pop(0)
            if d == 0:
                break
        else:
            if eng.decide(s.n >= m):
                segs[0] = Chunk(s.seq, z3.simplify(s.off + m), z3.simplify(s.n - m))
                m = 0
            else:
                if m > 4:
                    unsup("slice")
                for j in range(1, m):
                    if eng.decide(s.n == j):
                        m -= j
                        break
                else:
                    pass
                segs.pop(0)
    return Rope(segs)


def setitem(eng, o, k, v):
    from .engine import ClassInfo
    o = eng.force(o)
    if isinstance(o, VAttrDict):
        eng.set_raw(o.obj, k.t.as_string(), v)
        return
    if isinstance(o, (Ref, FRef)):
        if isinstance(o.cls, ClassInfo):
            hit = eng.lookup_class(o.cls, "__setitem__")
            if hit:
                eng.call(eng.bind(hit[1], o, hit[0]), [k, v], {})
                return
        c = eng.content(o)
        if isinstance(c, DictRep):
            eng.set_content(o, dict_set(eng, c, eng.force(k), v))
            return
        if isinstance(c, Rope):
            if isinstance(k, VSlice):
                lo, hi = k.lo, k.hi
                def const(x):
                    return z3.simplify(x.t).as_long() if isinstance(x, VInt) and z3.is_int_value(z3.simplify(x.t)) else None
                ins = iter_rope(eng, v)
                if const(lo) == 0 and const(hi) == 0:
                    eng.set_content(o, ins + c)
                    return
                if isinstance(lo, VNone) and isinstance(hi, VNone):
                    eng.set_content(o, ins)
                    return
                if c.is_concrete:
                    items = c.concrete()
                    items[const(lo):const(hi)] = ins.concrete()
                    eng.set_content(o, Rope([Elems(items)]))
                    return
                unsup("slice assignment")
            L = c.length()
            i = z3.simplify(z3.If(k.t < 0, k.t + L, k.t))
            if not eng.decide(z3.And(i >= 0, i < L)):
                eng.raise_py("IndexError", "list assignment index out of range")
            eng.set_content(o, rope_set(eng, c, i, v))
            return
        hook = eng.spec.ext_methods.get((o.cls.qualname, "__setitem__")) if eng.spec else None
        if hook:
            hook(eng, o, k, v)
            return
    if isinstance(o, VOpaque) and "__setitem__" in o.methods:
        o.methods["__setitem__"](eng, o, k, v)
        return
    unsup("item assignment on", o)


def rope_set(eng, rope, i, v):
    if rope.is_concrete:
        items = rope.concrete()
        for j in range(len(items)):
            if eng.decide(i == j):
                items = list(items)
                items[j] = v
                return Rope([Elems(items)])
        unsup("index")
    if len(rope.segs) == 1:
        s = rope.segs[0]
        old = s.seq
        off = s.off

        def at(idx):
            if eng.decide(idx == i, "updated index"):
                return v
            return old.at(eng, z3.simplify(off + idx))
        n = SymSeq(eng, old.tag, n=s.n, at=at)
        n.updated = (old, off, i, v)
        return Rope([Chunk(n)])
    unsup("item assignment on a symbolic list")


def delitem(eng, o, k):
    from .engine import ClassInfo
    o = eng.force(o)
    if isinstance(o, VAttrDict):
        eng.delattr(o.obj, k.t.as_string())
        return
    if isinstance(o, (Ref, FRef)):
        if isinstance(o.cls, ClassInfo):
            hit = eng.lookup_class(o.cls, "__delitem__")
            if hit:
                eng.call(eng.bind(hit[1], o, hit[0]), [k], {})
                return
        c = eng.content(o)
        if isinstance(c, DictRep):
            if dict_find(eng, c, k) is None:
                eng.raise_py("KeyError", "key")
            eng.set_content(o, dict_set(eng, c, eng.force(k), DictRep.DEL))
            return
        if isinstance(c, Rope) and isinstance(k, VInt):
            list_method(eng, o, "pop", [k], {})
            return
        if isinstance(c, Rope) and isinstance(k, VSlice) and isinstance(k.lo, VNone) and isinstance(k.hi, VNone):
            eng.set_content(o, Rope())
            return
    unsup("del item of", o)


# ------------------------------------------------------------- iteration

def index_seq(eng, seq, n):
    key = ("ixseq", id(seq))
    if key not in eng.extstate:
        s = SymSeq(eng, seq.tag + ".index", n=n, at=lambda idx: VInt(idx))
        eng.extstate[key] = s
    return eng.extstate[key]


def iter_rope(eng, v):
    from .engine import GenExp
    v = narrow(eng, v)
    if isinstance(v, VIter) and v.pos:
        return Rope([Elems(v.rope.concrete()[v.pos:])]) if v.rope.is_concrete else unsup("iterator partly taken")
    if isinstance(v, VTuple):
        return v.rope
    if isinstance(v, (Ref, FRef)):
        c = eng.content(v)
        if isinstance(c, Rope):
            return c
        if hasattr(v.cls, "bindings"):
            hit = eng.lookup_class(v.cls, "__iter__")
            if hit:
                return iter_rope(eng, eng.call(eng.bind(hit[1], v, hit[0]), [], {}))
        if isinstance(c, DictRep):
            return dict_keys_rope(eng, c)
    if isinstance(v, VStr):
        c = sconst(v)
        if c is not None:
            return Rope([Elems([VStr(x) for x in c])])
        n = z3.Length(v.t)
        return Rope([Chunk(SymSeq(eng, "chars", n=n, at=lambda i: VStr(z3.SubString(v.t, i, I(1)))))])
    if isinstance(v, VRange):
        lo, hi = v.lo, v.hi
        if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() <= 64:
            return Rope([Elems([VInt(i) for i in range(lo.as_long(), hi.as_long())])])
        n = z3.simplify(z3.If(hi > lo, hi - lo, I(0)))
        tag = range_tag(eng, lo, hi)
        return Rope([Chunk(SymSeq(eng, tag, n=n, at=lambda i: VInt(z3.simplify(lo + i))))])
    if isinstance(v, GenExp):
        if v.started:
            return Rope()
        v.started = True
        return eng.comp_rope(v.node, v.frame)
    if isinstance(v, VGen):
        out = eng.new_list()

        def on_yield(x):
            eng.set_content(out, eng.heap[out.oid].content.append(x))
            return NONE
        if v.started:
            return Rope()
        v.started = True
        v.run(on_yield)
        return eng.heap[out.oid].content
    if isinstance(v, VOpaque):
        m = v.methods.get("$rope")
        if m is not None:
            return m(eng, v)
    if isinstance(v, (VNone, VInt, VBool)):
        eng.raise_py("TypeError", "not iterable")
    unsup("iteration over", v)


def range_tag(eng, lo, hi):
    """Name of range(0, len(X)): the tag of X plus '.index'."""
    if z3.is_int_value(lo) and lo.as_long() == 0:
        for o in eng.heap.values():
            c = o.content
            if isinstance(c, Rope) and len(c.segs) == 1 and isinstance(c.segs[0], Chunk) and z3.simplify(c.segs[0].n).eq(hi):
                return c.segs[0].seq.tag + ".index"
    return "range"


def unpack(eng, v, n):
    v = narrow(eng, v)
    rope = iter_rope(eng, v)
    if not rope.is_concrete:
        if not eng.decide(rope.length() == n):
            eng.raise_py("ValueError", "unpack")
        return [index_rope(eng, rope, I(i)) for i in range(n)]
    items = rope.concrete()
    if len(items) != n:
        eng.raise_py("ValueError", "wrong number of values to unpack")
    return items


def rope_nonempty(eng, rope):
    return z3.simplify(rope.length() > 0)


def lazy_map(eng, rope, fn):
    segs = []
    for s in rope.segs:
        if isinstance(s, Elems):
            segs.append(Elems([fn(x) for x in s.items]))
        else:
            snap = eng.snapshot()

            def at(idx, s=s):
                x = s.seq.at(eng, z3.simplify(s.off + idx))
                return eng.with_snapshot(snap, lambda: fn(x))
            q = SymSeq(eng, s.seq.tag + ".map", n=s.n, at=at)
            eng.derive(q, s.seq, s.off)
            segs.append(Chunk(q))
    return Rope(segs)


def lazy_comp(eng, node, frame, rope):
    """[elt for target in rope if conds] with symbolic parts of rope evaluated
    element-wise on demand, in the state in which the comprehension ran."""
    from .engine import Frame, PyExc
    g = node.generators[0]
    snap = eng.snapshot()
    floc = dict(frame.locals)

    def frame_for(x):
        sub = Frame(frame.module, frame.func, frame, frame.cls)
        eng.assign(g.target, x, sub)
        return sub

    def pure(th):
        def run():
            before = eng.purity
            eng.purity = eng.next_oid
            saved = dict(frame.locals)
            frame.locals.clear()
            frame.locals.update(floc)
            try:
                return th()
            except PyExc as e:
                raise Unsupported("exception in a lazily evaluated comprehension: %s" % eng.describe_exc(e.value))
            finally:
                frame.locals.clear()
                frame.locals.update(saved)
                eng.purity = before
        return eng.with_snapshot(snap, run)
    segs = []
    for s in rope.segs:
        if isinstance(s, Elems):
            for x in s.items:
                sub = frame_for(x)
                if all(eng.branch(eng.eval(c, sub), "comp if") for c in g.ifs):
                    segs.append(Elems([eng.eval(node.elt, sub)]))
            continue
        if not g.ifs:
            def at(idx, s=s):
                x = s.seq.at(eng, z3.simplify(s.off + idx))
                return pure(lambda: eng.eval(node.elt, frame_for(x)))
            q = SymSeq(eng, s.seq.tag + ".map", n=s.n, at=at)
            q.source = s
            eng.derive(q, s.seq, s.off)
            segs.append(Chunk(q))
            continue
        # filtered: strictly increasing selection m of the indices satisfying the condition
        nm = eng.fresh_name("filter_" + s.seq.tag)
        m = z3.Function(nm + "_m", z3.IntSort(), z3.IntSort())
        inv = z3.Function(nm + "_inv", z3.IntSort(), z3.IntSort())
        n = eng.fresh_int(nm + "_n")
        eng.assume(z3.And(n >= 0, n <= s.n))

        def cond(idx, s=s):
            x = s.seq.at_noreg(eng, z3.simplify(s.off + idx))
            def ev():
                sub = frame_for(x)
                t = T
                for c in g.ifs:
                    t = z3.And(t, eng.truthy(eng.eval(c, sub)))
                return z3.simplify(t)
            return pure(ev)

        def at(j, s=s):
            j = z3.simplify(j)
            if z3.is_app(j) and j.decl().eq(inv):
                i = j.arg(0)
            else:
                i = m(j)
                eng.assume(z3.Implies(z3.And(j >= 0, j < n), z3.And(i >= 0, i < s.n, inv(i) == j)))
                c = cond(i)
                eng.assume(z3.Implies(z3.And(j >= 0, j < n), c))
            x = s.seq.at(eng, z3.simplify(s.off + i))
            return pure(lambda: eng.eval(node.elt, frame_for(x)))
        q = SymSeq(eng, s.seq.tag + ".filter", n=n, at=at)
        q.filter_of = (s, cond, m, inv)

        def fact(idx, s=s, q=q):
            i = z3.simplify(idx - s.off)
            if z3.is_app(i) and i.decl().eq(m):
                return
            c = cond(i)
            eng.assume(z3.If(z3.And(i >= 0, i < s.n, c), z3.And(inv(i) >= 0, inv(i) < n, m(inv(i)) == i), inv(i) == -1))
            eng.touch(q, inv(i))
        eng.add_fact(s.seq, fact)
        # non-empty: a witness
        w = eng.fresh_int(nm + "_w")
        eng.assume(z3.Implies(n > 0, z3.And(w >= 0, w < s.n, m(0) == w, inv(w) == 0)))
        s.seq.at(eng, z3.simplify(s.off + w))
        cw = cond(w)
        eng.assume(z3.Implies(n > 0, cw))
        segs.append(Chunk(q))
    return Rope(segs)


# ------------------------------------------------------------- operators

def pow2(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        n = t.as_long()
        return n > 0 and n & (n - 1) == 0
    return False


def bitop(eng, op, a, b):
    a, b = z3.simplify(a), z3.simplify(b)
    if z3.is_int_value(a) and z3.is_int_value(b):
        x, y = a.as_long(), b.as_long()
        return I({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
    if z3.is_int_value(a):
        a, b = b, a
    if op == "BitAnd" and z3.is_int_value(b) and b.as_long() >= 0:
        n = b.as_long()
        terms = []
        bit = 0
        while n >> bit:
            if (n >> bit) & 1:
                terms.append(((a / I(1 << bit)) % 2) * I(1 << bit))
            bit += 1
        if not terms:
            return I(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)
    if op == "BitAnd" and z3.is_int_value(b):
        return a - bitop(eng, "BitAnd", a, I(~b.as_long()))
    if z3.is_int_value(b) and b.as_long() >= 0:
        n = b.as_long()
        r = a
        for bit in range(n.bit_length()):
            if (n >> bit) & 1:
                one = (a / I(1 << bit)) % 2
                r = r + (1 - one if op == "BitOr" else 1 - 2 * one) * I(1 << bit)
        return r
    f = z3.Function("py_" + op, z3.IntSort(), z3.IntSort(), z3.IntSort())
    return f(a, b)


def binop(eng, op, a, b, inplace=False):
    from .engine import ClassInfo
    a, b = narrow(eng, a), narrow(eng, b)
    dn = {"Add": "add", "Sub": "sub", "Mult": "mul", "BitOr": "or", "BitAnd": "and", "Mod": "mod", "Div": "truediv",
          "FloorDiv": "floordiv", "LShift": "lshift", "RShift": "rshift", "BitXor": "xor", "Pow": "pow", "MatMult": "matmul"}[op]
    num = (VInt, VBool)
    if isinstance(a, num) and isinstance(b, num):
        if isinstance(a, VBool) and isinstance(b, VBool) and op in ("BitAnd", "BitOr", "BitXor"):
            return VBool({"BitAnd": z3.And(a.t, b.t), "BitOr": z3.Or(a.t, b.t), "BitXor": z3.Xor(a.t, b.t)}[op])
        x, y = b_int(eng, a).t, b_int(eng, b).t
        if op == "Add":
            return VInt(z3.simplify(x + y))
        if op == "Sub":
            return VInt(z3.simplify(x - y))
        if op == "Mult":
            return VInt(z3.simplify(x * y))
        if op in ("BitAnd", "BitOr", "BitXor"):
            return VInt(bitop(eng, op, x, y))
        ys = z3.simplify(y)
        if op in ("Mod", "FloorDiv") and z3.is_int_value(ys) and ys.as_long() > 0:
            return VInt(x % y if op == "Mod" else x / y)
        if op in ("LShift", "RShift") and z3.is_int_value(ys) and ys.as_long() >= 0:
            return VInt(x * (1 << ys.as_long()) if op == "LShift" else x / I(1 << ys.as_long()))
        unsup("operator", op, "on", x, y)
    # user-defined operators
    for o, other, nm in ((a, b, "__%s__" % dn), (b, a, "__r%s__" % dn)):
        if inplace and o is a and isinstance(o, (Ref, FRef)) and isinstance(o.cls, ClassInfo):
            hit = eng.lookup_class(o.cls, "__i%s__" % dn)
            if hit:
                return eng.call(eng.bind(hit[1], o, hit[0]), [other], {})
        if isinstance(o, (Ref, FRef)) and isinstance(o.cls, ClassInfo):
            # bool | Pipeline: the left operand's own operator raises NotImplemented
            hit = eng.lookup_class(o.cls, nm)
            if hit:
                return eng.call(eng.bind(hit[1], o, hit[0]), [other], {})
        if isinstance(o, VOpaque) and nm in o.methods:
            return o.methods[nm](eng, o, other)
    if op == "Mod" and isinstance(a, (VStr, VBytes)):
        return str_mod(eng, a, b)
    if op == "Add":
        if isinstance(a, VStr) and isinstance(b, VStr):
            return VStr(z3.simplify(z3.Concat(a.t, b.t)))
        if isinstance(a, VBytes) and isinstance(b, VBytes):
            return VBytes(z3.simplify(z3.Concat(a.t, b.t)))
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            return VTuple(a.rope + b.rope)
        if isinstance(a, (Ref, FRef)):
            c = eng.content(a)
            if isinstance(c, Rope):
                if inplace:
                    eng.set_content(a, c + iter_rope(eng, b))
                    return a
                if isinstance(b, (Ref, FRef)) and isinstance(eng.content(b), Rope):
                    return eng.new_list(c + eng.content(b))
                eng.raise_py("TypeError", "can only concatenate list to list")
        eng.raise_py("TypeError", "unsupported operand types for +")
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if isinstance(y, VInt) and z3.is_int_value(z3.simplify(y.t)):
                n = z3.simplify(y.t).as_long()
                if isinstance(x, VStr):
                    if n <= 0:
                        return VStr("")
                    return VStr(z3.Concat(*([x.t] * n)) if n > 1 else x.t)
                if isinstance(x, Ref) and isinstance(eng.content(x), Rope):
                    r = Rope()
                    for _ in range(n):
                        r = r + eng.content(x)
                    return eng.new_list(r)
                if isinstance(x, VTuple):
                    r = Rope()
                    for _ in range(n):
                        r = r + x.rope
                    return VTuple(r)
    if op == "BitOr" and isinstance(a, Ref) and isinstance(b, Ref):
        if isinstance(eng.content(a), DictRep) and isinstance(eng.content(b), DictRep):
            r = eng.new_dict(eng.content(a))
            dict_update(eng, r, b)
            return r
    if op in ("BitOr", "Sub", "BitAnd") and isinstance(a, Ref) and a.cls.name.endswith("set"):
        if op == "BitOr":
            return set_method(eng, a, "union", [b])
        if op == "Sub":
            return eng.alloc(eng.extclass("builtins.set"), Rope([Elems([x for x in eng.content(a).concrete()
                             if not eng.decide(contains(eng, b, x))])]))
    if isinstance(a, (VNone, VStr, VBytes, VInt, VBool, VTuple, Ref)) and isinstance(b, (VNone, VStr, VBytes, VInt, VBool, VTuple, Ref)):
        eng.raise_py("TypeError", "unsupported operand types for %s" % op)
    unsup("operator", op, "on", a, b)


def str_mod(eng, a, b):
    c = sconst(a)
    K = type(a)
    h = eng.spec.ext.get("str.__mod__") if eng.spec else None
    if c is None:
        if h:
            return h(eng, a, b)
        unsup("% formatting of a symbolic format")
    args = None
    if isinstance(b, VTuple):
        args = list(b.items)
    elif isinstance(b, (Ref, FRef)) and isinstance(eng.content(b), DictRep) and "%(" in c:
        args = None
    else:
        args = [b]
    out = []
    i = 0
    cur = ""
    while i < len(c):
        if c[i] != "%":
            cur += c[i]
            i += 1
            continue
        i += 1
        if i >= len(c):
            eng.raise_py("ValueError", "incomplete format")
        if c[i] == "%":
            cur += "%"
            i += 1
            continue
        name = None
        if c[i] == "(":
            j = c.index(")", i)
            name = c[i + 1:j]
            i = j + 1
        conv = c[i]
        i += 1
        if conv not in "srd":
            return K(eng.fresh_str("formatted"))
        if name is not None:
            v = getitem(eng, b, VStr(name))
        else:
            if not args:
                eng.raise_py("TypeError", "not enough arguments for format string")
            v = args.pop(0)
        out.append(S(cur))
        cur = ""
        if conv == "d":
            v = narrow(eng, v)
            if not isinstance(v, (VInt, VBool)):
                eng.raise_py("TypeError", "%d format")
        out.append(to_str(eng, v, "repr" if conv == "r" else "str") if K is VStr else bytes_arg(eng, v))
    if args and not (isinstance(b, (Ref, FRef))):
        if isinstance(b, VTuple) or len(args) > 0 and not isinstance(b, VTuple):
            eng.raise_py("TypeError", "not all arguments converted")
    out.append(S(cur))
    out = [o for o in out if not (z3.is_string_value(o) and pystr(o) == "")] or [S("")]
    return K(z3.simplify(z3.Concat(*out)) if len(out) > 1 else out[0])


def bytes_arg(eng, v):
    v = narrow(eng, v)
    if isinstance(v, VBytes):
        return v.t
    eng.raise_py("TypeError", "%b requires bytes")


def to_str(eng, v, kind):
    """Term of str(v) / repr(v)."""
    from .engine import ClassInfo
    v = narrow(eng, v)
    if isinstance(v, VStr):
        return v.t if kind == "str" else ufun("repr_str", v.t)
    if isinstance(v, VInt):
        t = z3.simplify(v.t)
        if z3.is_int_value(t):
            return S(str(t.as_long()))
        return z3.If(t >= 0, z3.IntToStr(t), z3.Concat(S("-"), z3.IntToStr(-t)))
    if isinstance(v, VNone):
        return S("None")
    if isinstance(v, VBool):
        return z3.If(v.t, S("True"), S("False"))
    if isinstance(v, (Ref, FRef)):
        h = eng.spec.ext.get("to_str") if eng.spec else None
        if h:
            r = h(eng, v, kind)
            if r is not None:
                return r
        return to_str_default(eng, v, kind)
    if isinstance(v, VTuple) and not v.rope.is_concrete:
        return eng.fresh_str("text")
    if isinstance(v, VOpaque) and "__%s__" % kind in v.methods:
        r = narrow(eng, eng.call(eng.getattr(v, "__%s__" % kind), []))
        if not isinstance(r, VStr):
            eng.raise_py("TypeError", "__str__ returned non-string")
        return r.t
    try:
        return ufun("py_" + kind, eng.enc(v))
    except Unsupported:
        return eng.fresh_str("text")


def to_str_default(eng, v, kind):
    # repr()/str() of repository objects: some string, no effects (assumption)
    return eng.fresh_str("text")


def contains(eng, o, x):
    """z3 Bool: x in o."""
    from .engine import ClassInfo
    o = narrow(eng, o)
    x = narrow(eng, x)
    if isinstance(o, (VStr, VBytes)):
        if type(x) is not type(o):
            eng.raise_py("TypeError", "'in <string>' requires string as left operand")
        return z3.Contains(o.t, x.t)
    if isinstance(o, VAttrDict):
        return z3.BoolVal(eng.get_raw(o.obj, x.t.as_string()) is not None)
    rope = None
    if isinstance(o, (Ref, FRef)):
        if isinstance(o.cls, ClassInfo):
            hit = eng.lookup_class(o.cls, "__contains__")
            if hit:
                return eng.truthy(eng.call(eng.bind(hit[1], o, hit[0]), [x], {}))
        c = eng.content(o)
        if isinstance(c, DictRep):
            return dict_has(eng, c, x)
        if isinstance(c, Rope):
            rope = c
        hook = eng.spec.ext_methods.get((o.cls.qualname, "__contains__")) if eng.spec else None
        if hook:
            return eng.truthy(hook(eng, o, x))
    if isinstance(o, VOpaque) and "__contains__" in o.methods:
        return eng.truthy(o.methods["__contains__"](eng, o, x))
    if isinstance(o, VRange):
        if not isinstance(x, VInt):
            return F
        return z3.And(x.t >= o.lo, x.t < o.hi)
    if rope is None:
        rope = iter_rope(eng, o)
    known = []
    chunks = []
    for s in rope.segs:
        if isinstance(s, Elems):
            known += [z3.Or(eng.same(x, y), eng.eq(x, y)) for y in s.items]
        else:
            chunks.append(s)
    res = z3.Or(known + [F])
    for s in chunks:
        d = getattr(s.seq, "dict", None)
        b = eng.fresh_bool("in_" + s.seq.tag)
        j = eng.fresh_int("at_" + s.seq.tag)
        eng.assume(z3.Implies(b, z3.And(j >= s.off, j < s.off + s.n)))
        eng.assume(z3.Implies(b, eng.eq(x, s.seq.at(eng, j))))

        def fact(idx, s=s, b=b):
            eng.assume(z3.Implies(z3.And(idx >= s.off, idx < s.off + s.n, eng.eq(x, s.seq.at_noreg(eng, idx))), b))
        eng.add_fact(s.seq, fact)
        res = z3.Or(res, b)
    return z3.simplify(res)


def compare(eng, op, a, b):
    from .engine import ClassInfo
    if op in ("Is", "IsNot"):
        r = eng.same(a, b)
        return z3.Not(r) if op == "IsNot" else r
    if op in ("Eq", "NotEq"):
        r = eng.eq(a, b)
        return z3.Not(r) if op == "NotEq" else r
    if op in ("In", "NotIn"):
        r = contains(eng, b, a)
        return z3.Not(r) if op == "NotIn" else r
    a, b = narrow(eng, a), narrow(eng, b)
    for o, other, nm in ((a, b, {"Lt": "__lt__", "Gt": "__gt__", "LtE": "__le__", "GtE": "__ge__"}[op]),
                         (b, a, {"Lt": "__gt__", "Gt": "__lt__", "LtE": "__ge__", "GtE": "__le__"}[op])):
        if isinstance(o, (Ref, FRef)) and isinstance(o.cls, ClassInfo):
            hit = eng.lookup_class(o.cls, nm)
            if hit:
                v = eng.call(eng.bind(hit[1], o, hit[0]), [other], {})
                raise ComparisonResult(v)
    if isinstance(a, (VInt, VBool)) and isinstance(b, (VInt, VBool)):
        x, y = b_int(eng, a).t, b_int(eng, b).t
        return {"Lt": x < y, "Gt": x > y, "LtE": x <= y, "GtE": x >= y}[op]
    if isinstance(a, VStr) and isinstance(b, VStr):
        return {"Lt": a.t < b.t, "Gt": b.t < a.t, "LtE": a.t <= b.t, "GtE": b.t <= a.t}[op]
    if isinstance(a, VOpaque) or isinstance(b, VOpaque):
        unsup("comparison of opaque values")
    eng.raise_py("TypeError", "comparison not supported")


class ComparisonResult(Exception):
    """A rich comparison that returned a non-boolean object."""

    def __init__(self, value):
        self.value = value


# ------------------------------------------------------------- with

def make_contextmanager(eng, func, args, kwargs):
    g = eng.call_function(func, list(args), kwargs)
    return VGenCM(g)


def context_manager(eng, mgr):
    from .engine import ClassInfo
    if isinstance(mgr, (Ref, FRef)):
        def enter():
            return eng.call(eng.getattr(mgr, "__enter__"), [], {})

        def exit_(exc):
            a = [NONE, NONE, NONE] if exc is None else [b_type(eng, exc), exc, NONE]
            return eng.branch(eng.call(eng.getattr(mgr, "__exit__"), a, {}), "suppressed")
        return enter, exit_
    if isinstance(mgr, VOpaque):
        return (lambda: mgr.methods["__enter__"](eng, mgr) if "__enter__" in mgr.methods else mgr,
                lambda exc: (mgr.methods["__exit__"](eng, mgr, exc) or False) if "__exit__" in mgr.methods else False)
    unsup("with on", mgr)

"""Symbolic values used by the pyvc verifier.

Every Python value of the analysed program is represented by one of the
classes below.  Scalars carry z3 terms; heap objects are references whose
contents live in the engine's state.
"""
import z3

U = z3.DeclareSort("U")                      # arbitrary Python objects
_V = z3.Datatype("Val")
_V.declare("none")
_V.declare("b", ("b_v", z3.BoolSort()))
_V.declare("i", ("i_v", z3.IntSort()))
_V.declare("s", ("s_v", z3.StringSort()))
_V.declare("y", ("y_v", z3.StringSort()))
_V.declare("o", ("o_v", U))
_V.declare("r", ("r_v", z3.IntSort()))
Val = _V.create()
SeqVal = z3.SeqSort(Val)

I = z3.IntVal
S = z3.StringVal


def is_const(t):
    return (z3.is_int_value(t) or z3.is_true(t) or z3.is_false(t)
            or z3.is_string_value(t))


def pystr(t):
    """Python string of a z3 string literal."""
    return t.as_string() if not hasattr(t, "py_value") else t.py_value()


class V(object):
    __slots__ = ()

    def __repr__(self):
        return type(self).__name__


class VNone(V):
    __slots__ = ()

    def __repr__(self):
        return "None"


NONE = VNone()


class VBool(V):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = z3.BoolVal(t) if isinstance(t, bool) else t

    def __repr__(self):
        return "VBool(%s)" % self.t


class VInt(V):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = I(t) if isinstance(t, int) else t

    def __repr__(self):
        return "VInt(%s)" % self.t


class VStr(V):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = S(t) if isinstance(t, str) else t

    def __repr__(self):
        return "VStr(%s)" % self.t


class VBytes(V):
    __slots__ = ("t",)

    def __init__(self, t):
        if isinstance(t, bytes):
            t = t.decode("latin-1")
        self.t = S(t) if isinstance(t, str) else t

    def __repr__(self):
        return "VBytes(%s)" % self.t


class VOpaque(V):
    """An arbitrary Python object about which only the listed external type
    names and attribute names are known."""
    __slots__ = ("t", "types", "attrs", "label", "methods")

    def __init__(self, t, types=(), attrs=(), label="", methods=None):
        self.t = t
        self.types = frozenset(types)
        self.attrs = frozenset(attrs)
        self.label = label
        self.methods = methods or {}

    def __repr__(self):
        return "VOpaque(%s:%s)" % (self.label, self.t)


class VVal(V):
    """Element of an uninterpreted sequence: a Val term of unknown type."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "VVal(%s)" % self.t


class VLazy(V):
    """A value whose shape is one of several alternatives; the alternative is
    chosen (branching) when the value is first inspected."""
    __slots__ = ("name", "alts")

    def __init__(self, name, alts):
        self.name = name
        self.alts = alts            # list of (label, thunk -> V)

    def __repr__(self):
        return "VLazy(%s)" % self.name


class VCase(V):
    """A value whose alternatives are selected by z3 conditions, so that equal
    keys select equal alternatives."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts            # list of (cond, thunk -> V); last is the default

    def __repr__(self):
        return "VCase"


class VPoison(V):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "VPoison(%s)" % self.why


class VTuple(V):
    __slots__ = ("rope",)

    def __init__(self, rope):
        self.rope = rope if isinstance(rope, Rope) else Rope([Elems(list(rope))])

    @property
    def items(self):
        return self.rope.concrete()

    def __repr__(self):
        return "VTuple(%r)" % (self.rope,)


class Ref(V):
    """Reference to a heap object allocated (or described) individually."""
    __slots__ = ("oid", "cls")

    def __init__(self, oid, cls):
        self.oid = oid
        self.cls = cls

    def __repr__(self):
        return "Ref(%s#%d)" % (getattr(self.cls, "name", self.cls), self.oid)


class FRef(V):
    """Reference to the member of an object family with the given key."""
    __slots__ = ("fam", "key")

    def __init__(self, fam, key):
        self.fam = fam
        self.key = key

    @property
    def cls(self):
        return self.fam.cls

    def __repr__(self):
        return "FRef(%s[%s])" % (self.fam.name, self.key)


class VFunc(V):
    __slots__ = ("node", "module", "closure", "qualname", "cls", "defaults", "kwdefaults", "kind")

    def __init__(self, node, module, closure, qualname, cls=None, defaults=(), kwdefaults=None):
        self.node = node
        self.module = module
        self.closure = closure      # enclosing Frame or None
        self.qualname = qualname
        self.cls = cls
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}

    def __repr__(self):
        return "VFunc(%s)" % self.qualname


class VBound(V):
    __slots__ = ("func", "self")

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return "VBound(%r, %r)" % (self.func, self.self)


class VBuiltinMethod(V):
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __repr__(self):
        return "VBuiltinMethod(%r.%s)" % (self.obj, self.name)


class VClass(V):
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info

    def __repr__(self):
        return "VClass(%s)" % self.info.qualname


class VModule(V):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "VModule(%s)" % self.name


class VExt(V):
    """External (non-repository) object, identified by its dotted name."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "VExt(%s)" % self.name


class VNative(V):
    """A callable implemented by the specification."""
    __slots__ = ("fn", "name", "types", "attrs")

    def __init__(self, fn, name="native", types=(), attrs=()):
        self.fn = fn
        self.name = name
        self.types = frozenset(types)
        self.attrs = attrs

    def __repr__(self):
        return "VNative(%s)" % self.name


class VProperty(V):
    __slots__ = ("fget", "fset", "fdel")

    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class VMethodKind(V):
    __slots__ = ("kind", "func")

    def __init__(self, kind, func):
        self.kind = kind            # classmethod | staticmethod
        self.func = func


class VGen(V):
    """Un-started generator / async generator / generator expression."""
    __slots__ = ("run", "name", "is_async", "started")

    def __init__(self, run, name, is_async=False):
        self.run = run              # run(on_yield) executes the body
        self.name = name
        self.is_async = is_async
        self.started = False

    def __repr__(self):
        return "VGen(%s)" % self.name


class VCoro(V):
    __slots__ = ("run", "name", "state")

    def __init__(self, run, name):
        self.run = run
        self.name = name
        self.state = "created"

    def __repr__(self):
        return "VCoro(%s)" % self.name


class VSuper(V):
    __slots__ = ("cls", "self")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self = self_


class VAttrDict(V):
    """obj.__dict__"""
    __slots__ = ("obj",)

    def __init__(self, obj):
        self.obj = obj


class VSlice(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class VRange(V):
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


# --------------------------------------------------------------- sequences

class Elems(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class Chunk(object):
    """n elements of a symbolic sequence starting at offset off."""
    __slots__ = ("seq", "off", "n")

    def __init__(self, seq, off=None, n=None):
        self.seq = seq
        self.off = off if off is not None else I(0)
        self.n = n if n is not None else seq.n


class Rope(object):
    """Immutable concatenation of known elements and symbolic chunks."""
    __slots__ = ("segs",)

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if isinstance(s, Elems):
                if not s.items:
                    continue
                if out and isinstance(out[-1], Elems):
                    out[-1] = Elems(out[-1].items + s.items)
                    continue
                out.append(Elems(list(s.items)))
            else:
                if z3.is_int_value(s.n) and s.n.as_long() == 0:
                    continue
                out.append(s)
        self.segs = tuple(out)

    def __add__(self, other):
        return Rope(self.segs + other.segs)

    def append(self, v):
        return Rope(self.segs + (Elems([v]),))

    @property
    def is_concrete(self):
        return all(isinstance(s, Elems) for s in self.segs)

    def concrete(self):
        if not self.is_concrete:
            raise Unsupported("sequence of unknown length where a known length is needed")
        return [v for s in self.segs for v in s.items]

    def length(self):
        n = 0
        t = None
        for s in self.segs:
            if isinstance(s, Elems):
                n += len(s.items)
            else:
                t = s.n if t is None else t + s.n
        if t is None:
            return I(n)
        return z3.simplify(t + n) if n else z3.simplify(t)

    def __repr__(self):
        return "Rope[%s]" % ", ".join(
            repr(s.items) if isinstance(s, Elems) else "<%s:%s>" % (s.seq.tag, s.n) for s in self.segs)


class SymSeq(object):
    """Sequence of symbolic length.  at(engine, idx) builds the element."""
    _ids = [0]

    def __init__(self, eng, tag, n=None, at=None, seqterm=None):
        self.tag = tag
        self.uid = eng.fresh_name("seq_" + tag)
        self.n = n if n is not None else eng.fresh_int("len_" + tag)
        self._at = at
        self._memo = {}
        self._seqterm = seqterm
        if n is None:
            eng.assume(self.n >= 0)

    def at(self, eng, idx):
        idx = z3.simplify(idx)
        k = str(idx)
        if k not in self._memo:
            eng.touch(self, idx)
            self._memo[k] = self._at(idx) if self._at else VVal(self.seqterm(eng)[idx])
        return self._memo[k]

    def seqterm(self, eng):
        if self._seqterm is None:
            self._seqterm = z3.Const(self.uid + "_sq", SeqVal)
            eng.assume(z3.Length(self._seqterm) == self.n)
        return self._seqterm


class SymDict(object):
    """Mapping with symbolic domain: has(k), value(k); iteration order is a
    symbolic sequence of distinct keys key(i), 0 <= i < n, pos(key(i)) == i."""

    def __init__(self, eng, tag, keysort, value, keywrap, has=None, n=None):
        self.tag = tag
        self.uid = eng.fresh_name("dict_" + tag)
        self.keysort = keysort
        self.keywrap = keywrap          # term -> V
        self._value = value             # term -> V
        self._vmemo = {}
        self._has = has if has is not None else z3.Function(self.uid + "_has", keysort, z3.BoolSort())
        self.keyf = z3.Function(self.uid + "_key", z3.IntSort(), keysort)
        self.posf = z3.Function(self.uid + "_pos", keysort, z3.IntSort())
        self.keyfacts = []
        self._touched = {}
        self.eng = eng
        self.keyseq = SymSeq(eng, tag + ".keys", n=n, at=self._key_at)
        self.n = self.keyseq.n
        eng.assume(self.n >= 0)

    def key_at(self, idx):
        """Term of the key at position idx (any term outside 0..n-1)."""
        idx = z3.simplify(idx)
        if z3.is_app(idx) and idx.decl().eq(self.posf):
            return idx.arg(0)
        k = self.keyf(idx)
        s = "k@%s" % idx
        if s not in self._touched:
            self._touched[s] = k
            self.eng.assume(z3.Implies(z3.And(idx >= 0, idx < self.n),
                                       z3.And(self._has(k), self.posf(k) == idx)))
        return k

    def _key_at(self, idx):
        k = self.key_at(idx)
        self.touch_key(k)
        return self.keywrap(k)

    def touch_key(self, k):
        k = z3.simplify(k)
        s = str(k)
        if s in self._touched:
            return k
        self._touched[s] = k
        if z3.is_app(k) and k.decl().eq(self.keyf):
            p = z3.simplify(k.arg(0))
        else:
            p = self.posf(k)
            self.eng.assume(z3.If(self._has(k), z3.And(p >= 0, p < self.n, self.keyf(p) == k), p == -1))
        for f in list(self.keyfacts):
            self.eng.assume(f(k))
        self.eng.touch(self.keyseq, p)
        return k

    def add_keyfact(self, f):
        self.keyfacts.append(f)
        for s, k in list(self._touched.items()):
            if not s.startswith("k@"):
                self.eng.assume(f(k))

    def has(self, k):
        k = self.touch_key(k)
        return self._has(k)

    def value(self, k):
        k = self.touch_key(k)
        s = str(k)
        if s not in self._vmemo:
            self._vmemo[s] = self._value(k)
        return self._vmemo[s]


class DictRep(object):
    """Immutable dict content: optional symbolic base plus later updates."""
    __slots__ = ("base", "over")
    DEL = object()

    def __init__(self, base=None, over=()):
        self.base = base
        self.over = tuple(over)


class Fam(object):
    """Family of objects of one class indexed by a z3 term."""

    def __init__(self, eng, name, cls, fields):
        self.name = eng.fresh_name("fam_" + name)
        self.cls = cls
        self.fields = fields            # attr -> (key term -> V)
        self._memo = {}

    def base(self, key, attr):
        k = (str(key), attr)
        if k not in self._memo:
            self._memo[k] = self.fields[attr](key)
        return self._memo[k]


class Unsupported(Exception):
    """Construct outside the verified subset: the obligation is undischarged."""

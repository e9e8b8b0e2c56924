"""C16 importing from bash."""
import re

from pyvc.lib import *
from pyvc import relang
from pyvc.engine import Unsupported
from pyvc.spec import Property

P = Property("C16", trusted=[
    "what bash prints (checked by running bash in the replay): `declare -x` one declaration after the other, each variable once, the value in double quotes with a backslash before \" \\ $ `, or, if it holds unprintable characters, as $'...' with the escapes \\E \\a \\b \\f \\n \\r \\t \\v \\\\ \\' and \\ooo for other bytes; arrays in parentheses on one line; `declare -f` afterwards, each function once, beginning `name () ` or `function name () ` and a line `{ `",
    "no later line of a function looks like the first lines of one, printed at the start of a line",
    "Python's regular expressions match by their language: where a single match at a position is possible, that is the one found (uniqueness is proved, lookaround is refused); finditer and sub go from left to right without overlap",
    "encode and decode as UTF-8 with surrogateescape lose nothing",
    "shlex.quote: one shell word that stands for the text; Command._run (C01, C03) and argument expansion (C02) by their contracts",
])
BI = "pieshell.pipeline.builtins."
Z, S_, B = z3.IntSort(), z3.StringSort(), z3.BoolSort()
NAME = r"[A-Za-z_][A-Za-z0-9_]*"
GRAMMAR = {
    "none": r"declare -[a-zA-Z]+ (%s)" % NAME,
    "quoted": r'declare -[a-zA-Z]+ (%s)=("((?:[^"\\$`]|\\["\\$`])*)")' % NAME,
    "ansic": r"declare -[a-zA-Z]+ (%s)=(\$'((?:[^'\\\x00-\x1f]|\\(?:[Eabfnrtv\\']|[0-3][0-7][0-7]))*)')" % NAME,
}
FIELDS = {"none": (1, None, 0), "quoted": (1, None, 3, 2, 0), "ansic": (1, None, 3, 2, 0)}
KINDS = ("none", "quoted", "ansic")
ARRAY = r"declare -[a-zA-Z]+ %s=\([^\n]*\)" % NAME
HEADER = r"(?:function )?([^ \t\n()<>&;|]+) \(\) \n\{ "
LOOKS = r"(?:function )?[^ \n]+ \(\) \n\{ "
kind, VAL, ENC = z3.Function("kind", S_, Z), z3.Function("bash_value", S_, S_), z3.Function("bash_printed", S_, S_)
START, SRC = z3.Function("function_start", Z, Z), z3.Function("function_source", S_, S_)
TEXT = z3.Function("text_between", Z, Z, S_)
NL = relang.lit("\n")
SOME = relang.cat(relang.CHAR, relang.ALL)


def spec():
    s = base_spec()
    for n in ("M", "MULTILINE", "S", "DOTALL", "A", "ASCII", "U", "UNICODE", "X", "VERBOSE", "I", "IGNORECASE"):
        s.ext_attrs["re." + n] = (lambda eng, n=n: VInt(int(getattr(re, n))))
    s.ext["re.compile"] = compile_
    s.ext["re.finditer"] = lambda eng, p, t, flags=None: finditer(eng, pattern(eng, p, flags), t)
    s.ext["re.sub"] = lambda eng, p, r, t, count=None, flags=None: sub(eng, pattern(eng, p, flags), r, t, count)
    return s


def pattern(eng, p, flags=None):
    p = eng.force(p)
    if isinstance(p, VOpaque) and "$pattern" in p.methods:
        return p.methods["$pattern"]
    c = models.sconst(p) if isinstance(p, (VStr, VBytes)) else None
    if c is None:
        raise Unsupported("regular expression that is not constant")
    fl = 0
    if flags is not None:
        f = z3.simplify(eng.force(flags).t)
        if not z3.is_int_value(f):
            raise Unsupported("regular expression flags")
        fl = f.as_long()
    return relang.of(c.encode("latin-1") if isinstance(p, VBytes) else c, fl), c.encode("latin-1") if isinstance(p, VBytes) else c, fl


def compile_(eng, p, flags=None):
    pat = pattern(eng, p, flags)
    return VOpaque(z3.Const("pattern_%s" % abs(hash(pat[1:])), U), types=["?"], label="pattern", methods={
        "$pattern": pat,
        "finditer": lambda e, s, t: finditer(e, pat, t),
        "sub": lambda e, s, r, t, count=None: sub(e, pat, r, t, count),
    })


# ------------------------------------------------------------ text from bash

class Printed(object):
    """What bash prints: any number of variables, then any number of functions."""

    def __init__(self, eng):
        self.eng = eng
        self.vars = SymDict(eng, "declares", S_, lambda k: VStr(VAL(k)), VStr)
        self.funs = SymDict(eng, "functions", S_, lambda k: VStr(SRC(k)), VStr)
        self.len = eng.fresh_int("len_data")
        eng.assume(self.len >= 0)
        self.data = VOpaque(eng.fresh_u("data"), types=["builtins.str", "?"], label="data", methods={
            "$printed": (self, "all"), "__len__": lambda e, s: VInt(self.len), "__getitem__": self.slice})
        self.declares = VOpaque(eng.fresh_u("declares"), types=["builtins.str", "?"], label="declarations", methods={"$printed": (self, "declares")})

    def start(self, i):
        t = START(i)
        self.eng.assume(z3.Implies(z3.And(0 <= i, i < self.funs.n), z3.And(0 <= START(I(0)), START(I(0)) <= t, t < self.len)))
        self.eng.assume(z3.Implies(z3.And(0 <= i, i + 1 < self.funs.n), t < START(z3.simplify(i + 1))))
        self.eng.assume(z3.Implies(z3.And(0 < i, i < self.funs.n), START(I(0)) < t))
        return t

    def end(self, i):
        return z3.If(i + 1 < self.funs.n, self.start(z3.simplify(i + 1)), self.len)

    def slice(self, eng, data, k):
        if not isinstance(k, VSlice) or not isinstance(eng.force(k.step), VNone):
            raise Unsupported("a character of the text")
        lo, hi = eng.force(k.lo), eng.force(k.hi)
        lo = I(0) if isinstance(lo, VNone) else z3.simplify(lo.t)
        hi = self.len if isinstance(hi, VNone) else z3.simplify(hi.t)
        first = z3.If(self.funs.n > 0, self.start(I(0)), self.len)
        if eng.decide(z3.And(lo == 0, hi == first), "the part before the functions"):
            return self.declares
        for i in indices(lo):
            if eng.decide(z3.And(0 <= i, i < self.funs.n, lo == START(i), hi == self.end(i)), "a function"):
                k = self.funs.key_at(i)
                self.funs.touch_key(k)
                t = TEXT(lo, hi)
                nl = z3.StringVal("\n")
                for n, a in (("py_rstrip", [nl]), ("py_rstrip", []), ("py_strip", []), ("py_strip", [nl])):
                    eng.assume(models.ufun(n, t, *a) == SRC(k))
                eng.extstate.setdefault("sources", []).append((t, k))
                return VStr(t)
        return VStr(TEXT(lo, hi))


def indices(t):
    """terms i of START(i) in t"""
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().eq(START):
                out.append(x.arg(0))
            todo.extend(x.children())
    return out


def must(eng, r, what):
    """the languages r have no text in common"""
    ok, text = relang.empty(*r)
    if ok is None:
        raise Unsupported("no answer about a regular expression: " + what)
    eng.prove(z3.BoolVal(ok), what if ok else "%s (not so for %s)" % (what, str(text)[:200]))
    return ok


def only_match(eng, p, g, what):
    """at the start of each text of the grammar g, followed by a line break,
    the pattern has a match and no other: the text"""
    l, d = p.lang(), g.lang()
    ok = must(eng, [d, z3.Complement(l)], "%s: found" % what)
    if p.end == "text":
        eng.prove(False, "%s: found, wherever it is" % what)
        return False
    ok = must(eng, [relang.cat(l, NL, relang.ALL) if p.end else relang.cat(l, SOME), d], "%s: to its end" % what) and ok
    return must(eng, [l, relang.cat(d, NL, relang.ALL)], "%s: no further than its end" % what) and ok


def finditer(eng, pat, text):
    p = pat[0]
    text = eng.force(text)
    if not (isinstance(text, VOpaque) and "$printed" in text.methods) or p.bytes:
        raise Unsupported("search in another text")
    x, part = text.methods["$printed"]
    if part == "all" and relang.empty(p.lang(), relang.cat(relang.of(HEADER).lang(), relang.ALL))[0] is not True:
        return functions(eng, p, x)
    if part == "all":
        eng.prove(x.funs.n == 0, "declarations inside functions are not taken for variables")
    return declares(eng, p, x)


def functions(eng, p, x):
    h = relang.of(HEADER)
    if not relang.subset(h.lang(), p.lang())[0] and relang.empty(p.lang(), relang.cat(h.lang(), NL, relang.ALL))[0] is False:
        raise Unsupported("a pattern of whole functions")
    eng.prove(p.start == "line", "functions start at the start of a line")
    only_match(eng, p, h, "a function's first lines")
    must(eng, [p.lang(), z3.Complement(relang.of(LOOKS).lang())], "nothing else is taken for a function")
    for k in KINDS:
        must(eng, [relang.cat(p.lang(), relang.ALL), relang.cat(relang.of(GRAMMAR[k]).lang(), NL, relang.ALL)], "no variable is taken for a function")
    cap = relang.captures(p, h, (1, 0, None))

    def at(i):
        k = x.funs.key_at(i)
        x.funs.touch_key(k)

        def val(e, c):
            if c == "none":
                return NONE
            if c == 1:
                return VStr(k)
            raise Unsupported("another part of a function's first lines")
        return match(p, "function", i, lambda e, j: val(e, cap[j - 1]), start=lambda: x.start(i))
    return VOpaque(eng.fresh_u("matches"), types=["?"], label="functions", methods={"$rope": lambda e, s: Rope([Chunk(SymSeq(eng, "functions", n=x.funs.n, at=at))])})


def declares(eng, p, x):
    eng.prove(p.start == "line", "declarations start at the start of a line")
    caps = {}
    for k in KINDS:
        g = relang.of(GRAMMAR[k])
        only_match(eng, p, g, "a declaration (%s)" % k)
        caps[k] = relang.captures(p, g, FIELDS[k])
    must(eng, [relang.cat(p.lang(), z3.Option(relang.cat(NL, relang.ALL)) if p.end else relang.ALL), relang.cat(relang.of(ARRAY).lang(), NL, relang.ALL)], "arrays are not taken for variables")

    def at(i):
        key = x.vars.key_at(i)
        x.vars.touch_key(key)
        eng.assume(z3.And(0 <= kind(key), kind(key) <= 2))
        eng.assume(z3.Implies(kind(key) == 0, VAL(key) == ""))
        eng.assume(z3.Implies(kind(key) == 1, (ENC(key) == "") == (VAL(key) == "")))
        # what is printed as $'...' holds something unprintable
        eng.assume(z3.Implies(kind(key) == 2, z3.And(VAL(key) != "", ENC(key) != "")))

        def one(c, kd):
            if c == "none":
                return lambda: NONE
            if c == 1:
                return lambda: VStr(key)
            if c == 3:
                return lambda: printed_value(eng, key, kd)

            def other():
                raise Unsupported("another part of a declaration")
            return other
        return match(p, "declaration", i, lambda e, j: VCase([(kind(key) == n if n < 2 else z3.BoolVal(True), one(caps[kd][j - 1], kd)) for n, kd in enumerate(KINDS)]))
    return VOpaque(eng.fresh_u("matches"), types=["?"], label="declarations", methods={"$rope": lambda e, s: Rope([Chunk(SymSeq(eng, "declares", n=x.vars.n, at=at))])})


def match(p, label, i, group, start=None):
    def number(e, j):
        j = e.force(j)
        if isinstance(j, VStr):
            n = models.sconst(j)
            if n not in p.names:
                e.raise_py("IndexError", "no such group")
            return p.names[n]
        n = z3.simplify(j.t).as_long()
        if n > p.ngroups:
            e.raise_py("IndexError", "no such group")
        if n == 0:
            raise Unsupported("the whole match")
        return n

    def get(e, s, *js):
        if not js:
            raise Unsupported("the whole match")
        r = [group(e, number(e, j)) for j in js]
        return r[0] if len(r) == 1 else VTuple(r)
    ms = {"group": get, "__getitem__": get, "groups": lambda e, s, default=None: groups(e, default), "__bool__": lambda e, s: VBool(True)}

    def groups(e, default):
        if default is not None and not isinstance(e.force(default), VNone):
            raise Unsupported("a default for groups")
        return VTuple([group(e, j) for j in range(1, p.ngroups + 1)])
    if start is not None:
        ms["start"] = lambda e, s: VInt(start())
    return VOpaque(z3.Function("match_" + label, Z, U)(i), types=["?"], label="match", methods=ms)


def printed_value(eng, key, kd, stage="text"):
    """the printed form of the value of variable `key`: as text, encoded, decoded bytes"""
    def encode(e, s, encoding=None, errors=None):
        utf8(e, encoding)
        if kd != "ansic":
            raise Unsupported("bytes of a quoted value")
        return printed_value(e, key, kd, "bytes")

    def decode(e, s, encoding=None, errors=None):
        utf8(e, encoding)
        er = "strict" if errors is None else models.sconst(e.force(errors))
        e.prove(er == "surrogateescape", "values that are not valid text are kept as they are")
        return VStr(VAL(key))
    ms = {"$value": (key, kd, stage), "__bool__": lambda e, s: VBool(ENC(key) != "")}
    if stage == "text":
        ms["encode"] = encode
    if stage == "value":
        ms["decode"] = decode
    return VOpaque(z3.Function("printed_%s_%s" % (kd, stage), S_, U)(key), types=["builtins.str" if stage == "text" else "builtins.bytes", "?"],
                   label="printed value", methods=ms)


def utf8(eng, encoding):
    c = "utf-8" if encoding is None else models.sconst(eng.force(encoding))
    eng.prove(c is not None and c.lower().replace("_", "-") in ("utf-8", "utf8"), "values are UTF-8")


# what each form's escapes stand for
ESC = {"E": 27, "a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, "'": 39}
ESCAPES = {"quoted": [("\\" + c, c) for c in "\"\\$`"],
           "ansic": [("\\" + c, chr(n)) for c, n in sorted(ESC.items())] + [("\\%03o" % n, chr(n)) for n in range(1, 256)]}
PLAIN = {"quoted": r'[^"\\$`]', "ansic": r"[^'\\\x00-\x1f]"}
ESCAPED = {"quoted": r'\\["\\$`]', "ansic": r"\\(?:[Eabfnrtv\\']|[0-3][0-7][0-7])"}


def sub(eng, pat, repl, text, count=None):
    """every escape in a printed value is replaced by what it stands for"""
    p, src, flags = pat
    text, repl = eng.force(text), eng.force(repl)
    if count is not None and not z3.is_true(z3.simplify(eng.force(count).t == 0)):
        raise Unsupported("a limited number of replacements")
    if isinstance(text, (VStr, VBytes)) and models.sconst(text) == "":
        if p.bytes != isinstance(text, VBytes) or re.search(src, b"" if p.bytes else "", flags):
            raise Unsupported("replacing in no text")
        return text
    if not (isinstance(text, VOpaque) and "$value" in text.methods):
        raise Unsupported("replacing in another text")
    key, kd, stage = text.methods["$value"]
    eng.prove(p.bytes == (stage == "bytes"), "patterns and texts are of one kind")
    if stage != ("text" if kd == "quoted" else "bytes") or p.bytes != (stage == "bytes"):
        raise Unsupported("replacing in another form of the value")
    if p.start or p.end:
        eng.prove(False, "escapes are replaced wherever they are")
        raise Unsupported("anchored")
    l, esc = p.lang(), relang.of(ESCAPED[kd]).lang()
    must(eng, [relang.cat(l, relang.ALL), relang.cat(relang.of(PLAIN[kd]).lang(), relang.ALL)], "what is no escape stays (%s)" % kd)
    must(eng, [l, relang.cat(esc, SOME)], "each escape on its own (%s)" % kd)
    # one escape; a match of the escape alone, and no longer one: the one found, whatever follows
    cases = ESCAPES[kd]
    if eng.choose(2, "replacing, the escapes one by one") == 1:
        for chunk, want in cases:
            one(eng, src, flags, repl, chunk, want, kd=kd)
        raise PathEnd()
    if kd == "quoted":
        return VStr(VAL(key))
    return printed_value(eng, key, kd, "value")


def one(eng, src, flags, repl, chunk, want, kd):
    K = VBytes if kd == "ansic" else VStr
    c = chunk.encode("latin-1") if kd == "ansic" else chunk
    m = re.compile(src, flags).match(c)
    if m is None or m.end() != len(c):
        eng.prove(False, "the escape %s is found" % chunk)
        return

    def wrap(v):
        return NONE if v is None else VBytes(v) if isinstance(v, bytes) else VStr(v)
    if isinstance(repl, (VStr, VBytes)):
        t = models.sconst(repl)
        if t is None:
            raise Unsupported("replacement that is not constant")
        got = wrap(m.expand(t.encode("latin-1") if kd == "ansic" else t))
    else:
        def get(e, s, *js):
            ns = [e.force(j) for j in js] or [VInt(0)]
            r = []
            for n in ns:
                n = models.sconst(n) if isinstance(n, VStr) else z3.simplify(n.t).as_long()
                try:
                    r.append(wrap(m.group(n)))
                except IndexError:
                    e.raise_py("IndexError", "no such group")
            return r[0] if len(r) == 1 else VTuple(r)
        mo = VOpaque(eng.fresh_u("match"), types=["?"], label="match", methods={
            "group": get, "__getitem__": get, "groups": lambda e, s: VTuple([wrap(g) for g in m.groups()]), "__bool__": lambda e, s: VBool(True)})
        got = eng.force(eng.call(repl, [mo]))
    ok = isinstance(got, K) and eng.eq(got, wrap(want.encode("latin-1") if kd == "ansic" else want))
    if not (ok is True or z3.is_expr(ok) and z3.is_true(z3.simplify(ok))):
        eng.prove(ok, "the escape %s stands for its character" % chunk)
    else:
        eng.prove(True, "every escape stands for its character (%s)" % kd)


# ------------------------------------------------------------------ targets

class Build(LoopSpec):
    """a dictionary: after i names it has an entry for each of them"""

    def __init__(self, d, value):
        self.d, self.value = d, value

    def dicts(self, L):
        return [m[1] for m in sorted(L.mods, key=str) if m[0] == "content" and m[1] in L.entry["heap"] and isinstance(L.entry["heap"][m[1]].content, DictRep)]

    def havoc_assume(self, L):
        eng, d, i = L.eng, self.d, L.i
        for oid in self.dicts(L):
            b = SymDict(eng, "built", S_, lambda k: VStr(self.value(k)), VStr, has=lambda k: z3.And(d.has(k), d.posf(k) < i))
            eng.heap[oid].content = DictRep(b)

    def check(self, L, i):
        eng, d = L.eng, self.d
        for oid in self.dicts(L):
            rep = eng.heap[oid].content
            if z3.is_int_value(i) and i.as_long() == 0:
                eng.prove(rep.base is None and not rep.over, "nothing there at first")
                continue
            agree(eng, d, rep, lambda q: d.posf(q) < i, self.value)


def agree(eng, d, rep, want, value, names="name"):
    q = eng.fresh_str("q")
    has = models.dict_has(eng, rep, VStr(q))
    if eng.decide(z3.And(d.has(q), want(q)), "wanted"):
        eng.prove(has, "there for every such %s" % names)
        v = models.dict_find(eng, rep, VStr(q))
        if v is not None:
            v = eng.force(v)
            eng.prove(isinstance(v, VStr), "text")
            if isinstance(v, VStr):
                # the source of a function may keep the line break after it
                same = v.t == value(q)
                for t, k in eng.extstate.get("sources", ()):
                    same = z3.Or(same, z3.And(k == q, v.t == t))
                eng.prove(same, "the %s's own" % names)
    else:
        eng.prove(z3.Not(has), "for nothing else")


def result(eng, x, r):
    r = eng.force(r)
    eng.prove(isinstance(r, VTuple), "variables and functions")
    vars, funs = [eng.force(v) for v in r.items]
    agree(eng, x.vars, models.dict_rep(eng, vars), lambda q: z3.BoolVal(True), lambda k: VAL(k), "variable")
    agree(eng, x.funs, models.dict_rep(eng, funs), lambda q: z3.BoolVal(True), lambda k: SRC(k), "function")


@P.target("every variable with its value, every function with its source, nothing else", spec=spec, functions=[BI + "parse_declares", BI + "unquote_ansic"])
def _(eng):
    x = Printed(eng)
    eng.spec.loops["declares"] = Build(x.vars, lambda k: VAL(k))
    eng.spec.loops["functions"] = Build(x.funs, lambda k: SRC(k))
    try:
        r = eng.call(eng.module_attr("pieshell.pipeline.builtins", "parse_declares"), [x.data])
    except PyExc as e:
        eng.prove(False, "reading what bash prints never fails")
        return
    result(eng, x, r)


@P.target("the environment gets them, and keeps everything else", spec=spec, functions=[BI + "BashSource.parse_decls"])
def _(eng):
    x = Printed(eng)
    lines = SymSeq(eng, "lines", at=lambda i: VStr(z3.Function("line", Z, S_)(i)))
    oldv = SymDict(eng, "exports", S_, lambda k: VStr(z3.Function("old_value", S_, S_)(k)), VStr)
    oldf = SymDict(eng, "bashfunctions", S_, lambda k: VStr(z3.Function("old_source", S_, S_)(k)), VStr)
    exports, funs = eng.new_dict(DictRep(oldv)), eng.new_dict(DictRep(oldf))
    env = eng.new_obj(eng.cls("pieshell.environ.Environment"), _exports_value=exports, _bashfunctions=funs, _scope=NONE)
    src = eng.new_obj(eng.cls(BI + "BashSource"), _env=env, _arg=eng.new_list([VStr("bashsource")]), _started=VBool(True), _running_process=NONE)
    seen = []

    def parse(e, data):
        seen.append(data)
        v = SymDict(e, "newvars", S_, lambda k: VStr(VAL(k)), VStr, has=lambda k: x.vars.has(k))
        f = SymDict(e, "newfuns", S_, lambda k: VStr(SRC(k)), VStr, has=lambda k: x.funs.has(k))
        return VTuple([e.new_dict(DictRep(v)), e.new_dict(DictRep(f))])
    eng.spec.contracts[BI + "parse_declares"] = parse
    joined = VOpaque(eng.fresh_u("joined"), types=["builtins.str", "?"], label="what was printed")

    def join(e, sep, rope):
        e.prove(isinstance(sep, VStr) and e.eq(sep, VStr(S("\n"))), "line breaks between lines")
        e.prove(rope.length() == lines.n, "all lines")
        q = e.fresh_int("q")
        if e.decide(z3.And(0 <= q, q < rope.length()), "a line"):
            e.prove(e.eq(models.index_rope(e, rope, q), lines.at(e, q)), "each line as it was read")
        return joined
    eng.spec.ext["join-symbolic"] = join

    class Collect(LoopSpec):
        """after i lines, the list has those"""
        def lists(self, L):
            return [m[1] for m in sorted(L.mods, key=str) if m[0] == "content" and m[1] in L.entry["heap"] and isinstance(L.entry["heap"][m[1]].content, Rope)]

        def havoc_assume(self, L):
            for oid in self.lists(L):
                L.eng.heap[oid].content = Rope([Chunk(lines, I(0), L.i)])

        def check(self, L, i):
            for oid in self.lists(L):
                c = L.eng.heap[oid].content
                if z3.is_int_value(i) and i.as_long() == 0:
                    L.eng.prove(c.length() == 0, "no line at first")
                    continue
                L.eng.prove(c.length() == i, "a line each")
                q = L.eng.fresh_int("q")
                if L.eng.decide(z3.And(0 <= q, q < i), "a line"):
                    L.eng.prove(L.eng.eq(models.index_rope(L.eng, c, q), lines.at(L.eng, q)), "the line itself")
    eng.spec.loops["lines"] = Collect()
    stdin = VOpaque(eng.fresh_u("stdin"), types=["?"], label="stdin", methods={"$rope": lambda e, s: Rope([Chunk(lines)])})
    try:
        eng.await_(eng.call(eng.getattr(src, "parse_decls"), [stdin]))
    except PyExc as e:
        eng.prove(False, "never fails")
        return
    eng.prove(len(seen) == 1, "read once")
    # (no line at all: nothing)
    eng.prove(seen and (seen[0] is joined or isinstance(seen[0], VStr) and z3.And(lines.n == 0, seen[0].t == "")), "all that was printed is read")
    eng.prove(eng.same(eng.getattr(env, "_exports"), exports), "the environment's variables are the same object")
    for d, new, old, want, was, what in ((exports, x.vars, oldv, VAL, z3.Function("old_value", S_, S_), "variable"),
                                         (eng.getattr(env, "_bashfunctions"), x.funs, oldf, SRC, z3.Function("old_source", S_, S_), "function")):
        rep = models.dict_rep(eng, d)
        q = eng.fresh_str("q")
        has = models.dict_has(eng, rep, VStr(q))
        eng.prove(has == z3.Or(new.has(q), old.has(q)), "the %ss that were there and the new ones" % what)
        if eng.decide(z3.Or(new.has(q), old.has(q)), "one"):
            v = eng.force(models.dict_find(eng, rep, VStr(q)))
            eng.prove(v.t == z3.If(new.has(q), want(q), was(q)), "the new %s, or else the old one" % what)


# ------------------------------------------------- the command line for bash

EXPN, EXP = z3.Function("expansions", Z, Z), z3.Function("expansion", Z, Z, S_)
OFF, LINE, QUOTE = z3.Function("lines_before", Z, Z), z3.Function("script_line", Z, S_), z3.Function("shell_quoted", S_, S_)
LAST = "{ declare -x; declare -f; } > $0"


def sourcing(t):
    return z3.Concat(S("source "), QUOTE(t))


def text_of(eng, v):
    v = eng.force(v)
    return v.t if isinstance(v, VStr) else None


def is_sourcing(eng, v, t):
    """the line v sources the file t"""
    v = text_of(eng, v)
    if v is None:
        return z3.BoolVal(False)
    plain = [z3.Concat(S(a), t, S(b)) for a, b in (("source '", "'"), ("source ", ""), ('source "', '"'))]
    other = [z3.Concat(S(a), QUOTE(t)) for a in ("source -- ", ". ", ". -- ")]
    if not any(valid(eng, v == f) for f in [sourcing(t)] + plain) and (any(valid(eng, v == f) for f in other) or not z3.eq(v, t)):
        if parts(v) & {t.get_id()}:
            raise Unsupported("another line for a file")
    return v == sourcing(t)


def parts(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo.extend(x.children())
    return seen


def valid(eng, c):
    return eng.query(z3.Not(c))[0] == z3.unsat


@P.target("bash sources what the arguments stand for, in order, then tells what it has; its output is read", spec=spec, functions=[BI + "BashSource._run"])
def _(eng):
    B_ = "pieshell.pipeline."
    CMD, BC, RS = B_ + "command.Command", B_ + "command.BaseCommand", "pieshell.redir.Redirects"
    word = z3.Function(eng.fresh_name("word"), Z, U)
    words = SymSeq(eng, "words", at=lambda i: VOpaque(word(i), types=["?"], label="word"))
    runs, read = [], []
    cur = {}
    eng.assume(OFF(I(0)) == 0)

    def off(i):
        """the number of lines for the words before i"""
        i = z3.simplify(i)
        eng.assume(z3.Implies(i >= 0, OFF(i) >= 0))
        return OFF(i)

    def expand(e, self, arg):
        arg = e.force(arg)
        if isinstance(arg, VStr) and models.sconst(arg) == "bashsource":
            e.prove(False, "the arguments, not the command's name")
        if not (isinstance(arg, VOpaque) and arg.t.decl().eq(word)):
            raise Unsupported("expanding something else")
        i = arg.t.arg(0)
        e.assume(EXPN(i) >= 0)
        e.assume(off(i + 1) == off(i) + EXPN(i))
        cur["i"] = i
        return e.new_list(Rope([Chunk(SymSeq(e, "expansions", n=EXPN(i), at=lambda j: VStr(EXP(i, j))))]))

    def line(q):
        return VStr(LINE(q))
    alllines = SymSeq(eng, "script", at=line)

    class Lines(LoopSpec):
        """the lines for the words so far"""
        def lists(self, L):
            return [m[1] for m in sorted(L.mods, key=str) if m[0] == "content" and m[1] in L.entry["heap"] and isinstance(L.entry["heap"][m[1]].content, Rope)]

        def havoc_assume(self, L):
            for oid in self.lists(L):
                L.eng.heap[oid].content = Rope([Chunk(alllines, I(0), self.upto(L, L.i))])

        def check(self, L, i):
            for oid in self.lists(L):
                c, n = L.eng.heap[oid].content, self.upto(L, i)
                if valid(L.eng, n == 0):
                    L.eng.prove(c.length() == 0, "nothing at first")
                    continue
                L.eng.prove(c.length() == n, "a line for each file")
                q = L.eng.fresh_int("q")
                if L.eng.decide(z3.And(0 <= q, q < n), "a line"):
                    self.item(L, c, q)

    class Words(Lines):
        def upto(self, L, i):
            return off(i)

        def item(self, L, c, q):
            L.eng.prove(L.eng.eq(models.index_rope(L.eng, c, q), line(q)), "the files' lines, in order")

    class Files(Lines):
        def upto(self, L, j):
            return z3.simplify(off(cur["i"]) + j)

        def item(self, L, c, q):
            eng, i = L.eng, cur["i"]
            v = models.index_rope(eng, c, q)
            j = z3.simplify(q - off(i))
            if eng.decide(q >= off(i), "of this word"):
                eng.assume(LINE(q) == sourcing(EXP(i, j)))      # what the lines are
                eng.prove(is_sourcing(eng, v, EXP(i, j)), "each file is sourced, its name quoted")
                return
            eng.prove(eng.eq(v, line(q)), "the lines before stay")
    eng.spec.loops["words"] = Words()
    eng.spec.loops["expansions"] = Files()
    joined = eng.fresh_str("script")

    def join(e, sep, rope):
        e.prove(isinstance(sep, VStr) and models.sconst(sep) in ("; ", ";", "\n", " ; "), "one command after the other, whatever their outcome")
        n = off(words.n)
        e.prove(rope.length() == n + 1, "the files and the last command")
        q = e.fresh_int("q")
        if e.decide(z3.And(0 <= q, q < n), "a file"):
            e.prove(e.eq(models.index_rope(e, rope, q), line(q)), "the files in order")
        last = text_of(e, models.index_rope(e, rope, n))
        e.prove(last is not None, "the last command")
        c = z3.simplify(last)
        if not z3.is_string_value(c) or c.as_string() != LAST and re.search(r"declare.*\$\{?0", c.as_string()):
            raise Unsupported("another last command")
        e.prove(last == S(LAST), "what bash has then goes to the function reading it")
        return VStr(joined)
    eng.spec.ext["join-symbolic"] = join
    eng.spec.ext["shlex.quote"] = lambda e, t: VStr(QUOTE(e.force(t).t))
    eng.spec.contracts["pieshell.environ.Environment._expand_argument"] = expand
    eng.spec.contracts[B_ + "builtin.BuiltinRegistry.get_by_name"] = lambda e, *a: NONE     # bash is not a builtin
    eng.spec.contracts[BI + "BashSource.parse_decls"] = lambda e, self, stdin: read.append((self, stdin)) or NONE
    out, procs = eng.new_obj(eng.cls(RS)), VOpaque(eng.fresh_u("processes"), types=["?"], label="processes")

    def run(e, self, redirects, sess, indentation=None, **k):
        runs.append((self, redirects, sess))
        e.setattr(self, "_redirects", out)
        return procs
    for c in (CMD, BC):
        eng.spec.contracts[c + "._run"] = run
    env = eng.new_obj(eng.cls("pieshell.environ.Environment"), _cwd=VStr(eng.fresh_str("cwd")), _interactive=VBool(eng.fresh_bool("interactive")), _scope=NONE)
    src = eng.new_obj(eng.cls(BI + "BashSource"), _env=env, _arg=eng.new_list(Rope([Elems([VStr(S("bashsource"))]), Chunk(words)])), _running_process=NONE, _started=VBool(False))
    redirects, sess = eng.new_obj(eng.cls(RS)), VOpaque(eng.fresh_u("session"), types=["?"], label="session")
    res = eng.force(eng.call(eng.getattr(src, "_run"), [redirects, sess]))
    eng.prove(len(runs) == 1, "one bash")
    c, r, s = runs[0]
    eng.prove(eng.same(r, redirects), "with the redirections given")
    eng.prove(same_val(eng, s, sess), "in the run's session")
    eng.prove(same_val(eng, res, procs), "its processes are those of the run")
    eng.prove(eng.same(eng.getattr(src, "_redirects"), out), "its descriptors are those of the run")
    eng.prove(eng.class_of(eng.force(c)) is eng.cls(CMD), "an external program")
    eng.prove(eng.same(eng.getattr(c, "_env"), env), "in the same environment")
    got = models.iter_rope(eng, eng.getattr(c, "_arg"))
    eng.prove(got.is_concrete, "bash, options, the commands, the function")
    args = [eng.force(v) for v in got.concrete()]
    consts = [models.sconst(a) if isinstance(a, VStr) else None for a in args[:-2]]
    eng.prove(consts and consts[0] == "bash" and consts[-1] == "-c", "bash with commands")
    eng.prove(all(o is not None and o in ("-l", "-i", "--login", "-li", "-il") for o in consts[1:-1]), "a login shell")
    text, fn = args[-2:]
    if isinstance(text, VStr) and valid(eng, z3.And(words.n == 0, text.t == S(LAST))):
        return
    if isinstance(text, VStr) and not valid(eng, text.t == joined):
        raise Unsupported("another text for bash")
    eng.prove(isinstance(text, Ref) and eng.class_of(text) is eng.cls("pieshell.environ.R"), "the commands are not expanded")
    eng.prove(text_of(eng, eng.getattr(text, "str")) is not None and z3.Or(eng.getattr(text, "str").t == joined, z3.And(words.n == 0, eng.getattr(text, "str").t == S(LAST))), "the commands")
    stdin = VOpaque(eng.fresh_u("stdin"), types=["?"], label="stdin")
    eng.call(fn, [stdin])
    eng.prove(len(read) == 1 and eng.same(read[0][0], src) and same_val(eng, read[0][1], stdin), "what bash has is read (parse_decls)")

"""Python regular expressions (constant patterns) as z3 regular expressions."""
import re
import z3

try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:
    import sre_parse
    import sre_constants as sc

from .values import Unsupported

ANY = lambda: z3.AllChar(z3.ReSort(z3.StringSort()))
FULL = lambda: z3.Full(z3.ReSort(z3.StringSort()))


def lit(s):
    return z3.Re(z3.StringVal(s))


def cat(*r):
    r = [x for x in r if x is not None]
    return r[0] if len(r) == 1 else z3.Concat(*r) if r else lit("")


def alt(*r):
    return r[0] if len(r) == 1 else z3.Union(*r)


def cls(items):
    neg = False
    parts = []
    for op, av in items:
        op = str(op)
        if op == "NEGATE":
            neg = True
        elif op == "LITERAL":
            parts.append(lit(chr(av)))
        elif op == "RANGE":
            parts.append(z3.Range(chr(av[0]), chr(av[1])))
        elif op == "CATEGORY":
            parts.append(category(str(av)))
        else:
            raise Unsupported("regular expression %s" % op)
    r = alt(*parts)
    return z3.Intersect(ANY(), z3.Complement(r)) if neg else r


def category(n):
    d = z3.Range("0", "9")
    sp = alt(*[lit(c) for c in " \t\n\r\f\v"])
    w = alt(d, z3.Range("a", "z"), z3.Range("A", "Z"), lit("_"))
    t = {"CATEGORY_DIGIT": d, "CATEGORY_SPACE": sp, "CATEGORY_WORD": w}
    if n in t:
        return t[n]
    n2 = n.replace("CATEGORY_NOT_", "CATEGORY_")
    if n2 in t:
        return z3.Intersect(ANY(), z3.Complement(t[n2]))
    raise Unsupported("regular expression category %s" % n)


def seq(items, flags=0):
    """(z3 regex, anchored at the start, anchored at the end)"""
    out, start, end = [], False, False
    items = list(items)
    for j, (op, av) in enumerate(items):
        op = str(op)
        if op == "AT":
            av = str(av)
            if av in ("AT_BEGINNING", "AT_BEGINNING_STRING") and j == 0:
                start = True
                continue
            if av in ("AT_END", "AT_END_STRING") and j == len(items) - 1:
                end = "$" if av == "AT_END" else "Z"
                continue
            raise Unsupported("regular expression anchor")
        out.append(one(op, av, flags))
    return cat(*out) if out else lit(""), start, end


def sub(items, flags):
    r, s, e = seq(items, flags)
    if s or e:
        raise Unsupported("nested regular expression anchor")
    return r


def one(op, av, flags):
    if op == "LITERAL":
        return lit(chr(av))
    if op == "NOT_LITERAL":
        return z3.Intersect(ANY(), z3.Complement(lit(chr(av))))
    if op == "ANY":
        return ANY() if flags & re.S else z3.Intersect(ANY(), z3.Complement(lit("\n")))
    if op == "IN":
        return cls(av)
    if op == "BRANCH":
        return alt(*[sub(x, flags) for x in av[1]])
    if op == "SUBPATTERN":
        return sub(av[-1], flags)
    if op in ("MAX_REPEAT", "MIN_REPEAT"):
        lo, hi, x = av
        r = sub(x, flags)
        if str(hi) == "MAXREPEAT":
            return z3.Star(r) if lo == 0 else z3.Concat(*([r] * lo + [z3.Star(r)]))
        if hi == 1 and lo == 0:
            return z3.Option(r)
        return z3.Loop(r, lo, hi)
    raise Unsupported("regular expression %s" % op)


def matches(pattern, t, kind="match", flags=0):
    """z3 Bool: re.<kind>(pattern, t) succeeds."""
    if flags & ~(re.S | re.A | re.U):
        raise Unsupported("regular expression flags")
    r, start, end = seq(sre_parse.parse(pattern, flags), flags)
    if kind == "fullmatch":
        return z3.InRe(t, r)
    if end == "$":
        r = cat(r, z3.Option(lit("\n")))
    elif not end:
        r = cat(r, FULL())
    if kind == "search" and not start:
        r = cat(FULL(), r)
    return z3.InRe(t, r)

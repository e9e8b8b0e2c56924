"""What a constant regular expression does on a language of texts, decided by
emptiness of regular languages (z3), so that a pattern is judged by what it
matches and not by how it is written.

Grammars of the texts are written as regular expressions too; their groups are
the fields of a text."""
import re
import z3

try:
    from re import _parser as sre_parse
except ImportError:
    import sre_parse

from .values import Unsupported
from .rx import lit, cat, alt

STR = z3.ReSort(z3.StringSort())
OPEN, CLOSE = "\ue000", "\ue001"
MARK = z3.Union(lit(OPEN), lit(CLOSE))
CHAR = z3.Intersect(z3.AllChar(STR), z3.Complement(MARK))
ALL = z3.Star(CHAR)
NONE_ = z3.Empty(STR)
UNISPACE = "\t\n\r\f\v \x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


class Lang(object):
    """A pattern as languages: plain texts, texts with a group marked, and texts
    with marks anywhere."""

    def __init__(self, pattern, flags=0):
        self.bytes = isinstance(pattern, bytes)
        if self.bytes:
            pattern = pattern.decode("latin-1")
            flags |= re.A
        p = sre_parse.parse(pattern, flags)
        flags = p.state.flags if hasattr(p, "state") else p.pattern.flags
        if flags & (re.I | re.L | re.DEBUG):
            raise Unsupported("regular expression flags")
        self.flags = flags
        self.ngroups = (p.state.groups if hasattr(p, "state") else p.pattern.groups) - 1
        self.names = dict((p.state.groupdict if hasattr(p, "state") else p.pattern.groupdict))
        items = list(p)
        self.start = self.end = False
        if items and str(items[0][0]) == "AT":
            a = str(items.pop(0)[1])
            if a not in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                raise Unsupported("regular expression anchor")
            self.start = "line" if a == "AT_BEGINNING" and flags & re.M else "text"
        if items and str(items[-1][0]) == "AT":
            a = str(items.pop()[1])
            if a not in ("AT_END", "AT_END_STRING"):
                raise Unsupported("regular expression anchor")
            self.end = "line" if a == "AT_END" and flags & re.M else "text"
        self.items = items

    def lang(self, mark=None, shuffled=False):
        """z3 regular expression of the texts; with the contents of group
        `mark` marked, or with marks anywhere"""
        b = Builder(self.flags, self.bytes, mark, shuffled)
        r = b.seq(self.items)
        return cat(r, z3.Star(MARK)) if shuffled else r


class Builder(object):
    def __init__(self, flags, bytes_, mark, shuffled):
        self.flags, self.bytes, self.mark, self.shuffled = flags, bytes_, mark, shuffled

    def ch(self, r):
        return cat(z3.Star(MARK), r) if self.shuffled else r

    def seq(self, items):
        out = [self.one(str(op), av) for op, av in items]
        return cat(*out) if out else lit("")

    def cls(self, items):
        neg, parts = False, []
        for op, av in items:
            op = str(op)
            if op == "NEGATE":
                neg = True
            elif op == "LITERAL":
                parts.append(lit(chr(av)))
            elif op == "RANGE":
                parts.append(z3.Range(chr(av[0]), chr(av[1])))
            elif op == "CATEGORY":
                parts.append(self.category(str(av)))
            else:
                raise Unsupported("regular expression %s" % op)
        r = alt(*parts)
        return z3.Intersect(CHAR, z3.Complement(r) if neg else r)

    def category(self, n):
        neg = "_NOT_" in n
        n = n.replace("CATEGORY_NOT_", "CATEGORY_")
        asc = bool(self.flags & re.A)
        if n == "CATEGORY_DIGIT":
            r = z3.Range("0", "9")
        elif n == "CATEGORY_SPACE":
            r = alt(*[lit(c) for c in (UNISPACE[:6] if asc else UNISPACE)])
        elif n == "CATEGORY_WORD":
            r = alt(z3.Range("0", "9"), z3.Range("a", "z"), z3.Range("A", "Z"), lit("_"))
        else:
            raise Unsupported("regular expression category %s" % n)
        if not asc and n != "CATEGORY_SPACE":
            # letters and digits beyond ASCII: not told apart; no grammar may use them here
            r = alt(r, lit("\ue002"))
        return z3.Intersect(CHAR, z3.Complement(r)) if neg else r

    def one(self, op, av):
        if op == "LITERAL":
            return self.ch(lit(chr(av)))
        if op == "NOT_LITERAL":
            return self.ch(z3.Intersect(CHAR, z3.Complement(lit(chr(av)))))
        if op == "ANY":
            return self.ch(CHAR if self.flags & re.S else z3.Intersect(CHAR, z3.Complement(lit("\n"))))
        if op == "IN":
            return self.ch(self.cls(av))
        if op == "BRANCH":
            return alt(*[self.seq(x) for x in av[1]])
        if op == "SUBPATTERN":
            if len(av) == 4 and (av[1] or av[2]):
                raise Unsupported("regular expression flags in a group")
            r = self.seq(av[-1])
            if self.mark is not None and av[0] == self.mark:
                r = cat(lit(OPEN), r, lit(CLOSE))
            return r
        if op in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, x = av
            marked = self.mark is not None and self.holds(x)
            if marked and str(hi) != "1":
                raise Unsupported("group in a repetition")
            r = self.seq(x)
            if str(hi) == "MAXREPEAT":
                return z3.Star(r) if lo == 0 else cat(*([r] * lo + [z3.Star(r)]))
            if hi == 1 and lo == 0:
                return z3.Option(r)
            return z3.Loop(r, lo, hi)
        raise Unsupported("regular expression %s" % op)

    def holds(self, items):
        for op, av in items:
            op = str(op)
            if op == "SUBPATTERN" and (av[0] == self.mark or self.holds(av[-1])):
                return True
            if op == "BRANCH" and any(self.holds(x) for x in av[1]):
                return True
            if op in ("MAX_REPEAT", "MIN_REPEAT") and self.holds(av[2]):
                return True
        return False


_memo = {}


def empty(*rs):
    """Do the languages have no text in common?  (True, None), (False, text) or
    (None, None) if the solver gives no answer."""
    r = rs[0] if len(rs) == 1 else z3.Intersect(*rs)
    k = r.sexpr()
    if k not in _memo:
        s = z3.Solver()
        s.set("timeout", 20000)
        x = z3.String("x")
        s.add(z3.InRe(x, r))
        a = s.check()
        if a == z3.unsat:
            _memo[k] = (True, None)
        elif a == z3.sat:
            _memo[k] = (False, s.model().eval(x))
        else:
            _memo[k] = (None, None)
    return _memo[k]


def subset(a, b):
    return empty(a, z3.Complement(b))


def of(pattern, flags=0):
    k = (pattern, flags)
    if k not in _memo:
        _memo[k] = Lang(pattern, flags)
    return _memo[k]


def captures(p, g, fields):
    """For each group of pattern p: the index in `fields` of what it captures on
    every text of the grammar g that it matches, or None.  `fields` are grammars:
    None (it takes no part) or a group number of g (0: the whole)."""
    res = []
    for k in range(1, p.ngroups + 1):
        hit = None
        m = z3.Intersect(p.lang(mark=k), g.lang(shuffled=True))
        for f in fields:
            want = g.lang() if f is None else cat(lit(OPEN), g.lang(), lit(CLOSE)) if f == 0 else g.lang(mark=f)
            if subset(m, want)[0]:
                hit = f if f is not None else "none"
                break
        res.append(hit)
    return res

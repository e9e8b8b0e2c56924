"""pyvc: a deductive verifier for a subset of Python.

The verifier reads the functions under contract from the current source of
the repository, executes them symbolically over all paths (loops by invariant
rule, calls by contract or by inlining) and discharges every obligation with
an SMT solver.  Exploration is by re-execution: a path is a list of recorded
decisions.
"""
import ast
import builtins as pybuiltins
import hashlib
import os
import subprocess
import tempfile
import time

import z3

from .values import *
from .collect import find_collectors

SENTINEL = object()


TRACE = int(__import__("os").environ.get("TL", "40"))


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class Infeasible(PathEnd):
    pass


class PyExc(Exception):
    def __init__(self, value):
        self.value = value


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ExtClass(object):
    def __init__(self, name):
        self.name = name
        short = name.split(".")[-1]
        self.py = None
        if name.startswith("builtins."):
            self.py = getattr(pybuiltins, short, None)
        elif name in ("asyncio.CancelledError", "asyncio.InvalidStateError"):
            import asyncio
            self.py = getattr(asyncio, short)

    @property
    def qualname(self):
        return self.name

    def __repr__(self):
        return "ExtClass(%s)" % self.name


class ModuleInfo(object):
    def __init__(self, name, path, is_pkg):
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        find_collectors(self.tree)
        self.bindings = {}
        self.stars = []
        self._collect(self.tree.body)

    def _collect(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.bindings[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.bindings[(a.asname or a.name.split(".")[0])] = (st, a)
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    if a.name == "*":
                        self.stars.append(st)
                    else:
                        self.bindings[a.asname or a.name] = (st, a)
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tgts = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tgts:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.bindings[n.id] = (st, n.id)
            elif isinstance(st, ast.Try):
                for h in st.handlers:
                    self._collect(h.body)
                self._collect(st.body)
                self._collect(st.orelse)
                self._collect(st.finalbody)
            elif isinstance(st, (ast.If, ast.While, ast.For, ast.With)):
                self._collect(getattr(st, "orelse", []))
                self._collect(st.body)


class ClassInfo(object):
    def __init__(self, name, qualname, module, node, closure=None):
        self.name = name
        self.qualname = qualname
        self.module = module
        self.node = node
        self.closure = closure
        self.bindings = {}
        for st in node.body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.bindings.setdefault(st.name, []).append(st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.bindings.setdefault(n.id, []).append((st, n.id))
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                self.bindings.setdefault(st.target.id, []).append((st, st.target.id))
        self.bases = None
        self.mro = None

    def __repr__(self):
        return "ClassInfo(%s)" % self.qualname


class Frame(object):
    __slots__ = ("locals", "closure", "module", "func", "globals_decl", "nonlocals", "on_yield",
                 "cls", "is_class", "loopdepth")

    def __init__(self, module, func=None, closure=None, cls=None):
        self.locals = {}
        self.closure = closure
        self.module = module
        self.func = func
        self.globals_decl = set()
        self.nonlocals = set()
        self.on_yield = None
        self.cls = cls
        self.is_class = False


class Obj(object):
    __slots__ = ("attrs", "content", "extra")

    def __init__(self):
        self.attrs = {}
        self.content = None
        self.extra = None

    def copy(self):
        o = Obj()
        o.attrs = dict(self.attrs)
        o.content = self.content
        o.extra = self.extra
        return o


class LoopCtx(object):
    def __init__(self, eng, frame, key):
        self.eng = eng
        self.frame = frame
        self.key = key
        self.chunk = None
        self.n = None
        self.i = None
        self.mods = None
        self.entry = None
        self.data = {}

    # helpers for specifications
    def modified_lists(self):
        return sorted(m[1] for m in self.mods if m[0] == "content")

    def entry_content(self, oid):
        return self.entry["heap"][oid].content


class LoopSpec(object):
    """Invariant of a loop.  havoc_assume(L) must replace everything the loop
    modifies (L.mods) that later code relies on and assume the invariant at
    iteration count L.i; check(L, i) proves it for the current state."""
    name = "loop"

    def havoc_assume(self, L):
        pass

    def check(self, L, i):
        pass


class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.proved_by = {}


class Engine(object):
    def __init__(self, repo, timeout_ms=10000, max_paths=4000, time_limit=400):
        self.live_gens = []
        self.repo = repo
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.time_limit = time_limit
        self.modules = {}
        self.classes = {}
        self.stats = Stats()
        self.proof_cache = {}
        self.spec = None
        from . import models
        self.models = models
        self.inlined = set()
        self.contract_calls = set()

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name not in self.modules:
            rel = name.replace(".", "/")
            p = os.path.join(self.repo, rel + ".py")
            pk = os.path.join(self.repo, rel, "__init__.py")
            if os.path.exists(pk):
                self.modules[name] = ModuleInfo(name, pk, True)
            elif os.path.exists(p):
                self.modules[name] = ModuleInfo(name, p, False)
            else:
                self.modules[name] = None
        return self.modules[name]

    def resolve_from(self, mod, st):
        """Absolute module name an ImportFrom in module `mod` refers to."""
        if not st.level:
            return st.module
        parts = mod.name.split(".")
        if not mod.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[:-(st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def import_value(self, mod, st, a):
        if isinstance(st, ast.Import):
            name = a.name if a.asname else a.name.split(".")[0]
            if self.module(name):
                return VModule(name)
            return VExt(name)
        base = self.resolve_from(mod, st)
        m = self.module(base)
        if m is None:
            if base and base.split(".")[0] == "pieshell":
                return VExt(base + "." + a.name)
            return VExt(base + "." + a.name)
        v = self.module_attr(base, a.name, default=None)
        if v is not None:
            return v
        raise Unsupported("cannot import %s from %s" % (a.name, base))

    def module_attr(self, modname, name, default=SENTINEL):
        key = (modname, name)
        if key in self.globals:
            return self.globals[key]
        ov = self.spec.globals.get("%s.%s" % key) if self.spec else None
        if ov is not None:
            self.globals[key] = v = ov(self)
            return v
        m = self.module(modname)
        b = m.bindings.get(name)
        v = None
        if b is not None:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                v = self.make_function(b, Frame(m), None, m.name + "." + b.name)
                v = self.apply_decorators(b, v, Frame(m))
            elif isinstance(b, ast.ClassDef):
                v = VClass(self.class_info(b, m, m.name + "." + b.name))
            elif isinstance(b[0], (ast.Import, ast.ImportFrom)):
                v = self.import_value(m, b[0], b[1])
            else:
                st = b[0]
                if isinstance(st, ast.AugAssign):
                    raise Unsupported("module global %s.%s is updated in place" % key)
                fr = Frame(m)
                if isinstance(st, ast.Assign) and not all(isinstance(t, ast.Name) for t in st.targets):
                    raise Unsupported("module global %s.%s: destructuring" % key)
                v = self.eval(st.value, fr)
        elif m.is_pkg and self.module(modname + "." + name):
            v = VModule(modname + "." + name)
        else:
            for st in m.stars:
                base = self.resolve_from(m, st)
                if self.module(base) is not None:
                    r = self.module_attr(base, name, default=None)
                    if r is not None:
                        v = r
        if v is None:
            if default is not SENTINEL:
                return default
            self.raise_py("AttributeError", "%s.%s" % key)
        self.globals[key] = v
        return v

    def class_info(self, node, module, qualname, closure=None):
        key = (module.name, qualname, id(node))
        if key not in self.classes:
            self.classes[key] = ClassInfo(node.name, qualname, module, node, closure)
        return self.classes[key]

    def cls(self, dotted):
        """ClassInfo for e.g. 'pieshell.redir.Redirect'."""
        mod, name = dotted.rsplit(".", 1)
        v = self.module_attr(mod, name)
        if not isinstance(v, VClass):
            raise Unsupported("%s is not a class any more" % dotted)
        return v.info

    def bases(self, ci):
        if ci.bases is None:
            fr = Frame(ci.module, closure=ci.closure)
            out = []
            for b in ci.node.bases:
                v = self.eval(b, fr)
                if isinstance(v, VClass):
                    out.append(v.info)
                elif isinstance(v, VExt):
                    out.append(self.extclass(v.name))
                else:
                    raise Unsupported("base class %r" % (v,))
            ci.bases = out
        return ci.bases

    _ext = {}

    def extclass(self, name):
        if name.startswith("builtins.") is False and hasattr(pybuiltins, name) and "." not in name:
            name = "builtins." + name
        if name not in self._ext:
            self._ext[name] = ExtClass(name)
        return self._ext[name]

    def mro(self, ci):
        if isinstance(ci, ExtClass):
            return [ci]
        if ci.mro is None:
            seqs = [list(self.mro(b)) for b in self.bases(ci)] + [list(self.bases(ci))]
            out = [ci]
            seqs = [s for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    raise Unsupported("inconsistent MRO")
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            ci.mro = out
        return ci.mro

    def is_subclass(self, ci, target):
        for c in self.mro(ci) if isinstance(ci, ClassInfo) else [ci]:
            if c is target:
                return True
            if isinstance(c, ExtClass) and isinstance(target, ExtClass):
                if c.name == target.name:
                    return True
                if c.py is not None and target.py is not None and issubclass(c.py, target.py):
                    return True
                if target.name == "builtins.object":
                    return True
        return isinstance(target, ExtClass) and target.name == "builtins.object"

    def lookup_class(self, ci, name):
        """(owner, attribute value) found along the MRO, or None."""
        for c in self.mro(ci):
            if isinstance(c, ExtClass):
                continue
            if name in c.bindings:
                return c, self.class_attr(c, name)
        return None

    def class_attr(self, ci, name):
        key = (ci, name)
        if key in self.classattrs:
            return self.classattrs[key]
        fr = Frame(ci.module, closure=ci.closure)
        fr.is_class = True
        fr.cls = ci
        v = None
        for b in ci.bindings[name]:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                v0 = v
                v = self.make_function(b, fr, ci, ci.qualname + "." + b.name)
                v = self.apply_decorators(b, v, fr, prev=v0, prevname=name)
            elif isinstance(b, ast.ClassDef):
                v = VClass(self.class_info(b, ci.module, ci.qualname + "." + b.name))
            else:
                v = self.eval(b[0].value, fr)
        self.classattrs[key] = v
        return v

    def make_function(self, node, frame, cls, qualname):
        args = node.args
        defaults = [self.eval(d, frame) for d in args.defaults]
        kwd = {a.arg: self.eval(d, frame) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None}
        closure = frame if (frame.func is not None or frame.closure is not None) and not frame.is_class else frame.closure
        return VFunc(node, frame.module, closure, qualname, cls, defaults, kwd)

    def apply_decorators(self, node, v, frame, prev=None, prevname=None):
        for d in reversed(node.decorator_list):
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter", "getter") and isinstance(prev, VProperty):
                p = VProperty(prev.fget, prev.fset, prev.fdel)
                setattr(p, {"setter": "fset", "deleter": "fdel", "getter": "fget"}[d.attr], v)
                v = p
                continue
            dv = self.eval(d, frame)
            if isinstance(dv, VExt) and dv.name in ("builtins.property",):
                v = VProperty(v)
            elif isinstance(dv, VExt) and dv.name in ("builtins.classmethod", "builtins.staticmethod"):
                v = VMethodKind(dv.name.split(".")[1], v)
            elif isinstance(dv, VExt) and dv.name == "contextlib.contextmanager":
                v = VMethodKind("contextmanager", v)
            else:
                v = self.call(dv, [v], {})
        return v

    # ------------------------------------------------------ path machinery
    def reset_path(self, prefix):
        for g in self.live_gens:
            g.close()
        self.live_gens = []
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.pc = []
        self.uf = {}
        self.uf_terms = {}
        self.names = {}
        self.heap = {}
        self.famw = {}
        self.ghost = {}
        self.globals = {}
        self.classattrs = {}
        self.next_oid = 1
        self.loops = []
        self.imprecise = False
        self.collecting = []
        self.depth = 0
        self.inputs = []
        self.lazy = {}
        self.trace = []
        self.modattrs = {}
        self.handling = []
        self.extstate = {}
        self.havocked = set()

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)

    def fresh_int(self, base):
        return z3.Int(self.fresh_name(base))

    def fresh_bool(self, base):
        return z3.Bool(self.fresh_name(base))

    def fresh_str(self, base):
        return z3.String(self.fresh_name(base))

    def fresh_u(self, base):
        return z3.Const(self.fresh_name(base), U)

    def fresh(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    def fresh_like(self, v, base="h"):
        if isinstance(v, VBool):
            return VBool(self.fresh_bool(base))
        if isinstance(v, VInt):
            return VInt(self.fresh_int(base))
        if isinstance(v, VStr):
            return VStr(self.fresh_str(base))
        if isinstance(v, VBytes):
            return VBytes(self.fresh_str(base))
        return VPoison("changed by a loop")

    def assume(self, t):
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        self._add(t)
        if z3.is_false(t):
            raise Infeasible()

    def _add(self, t):
        """Conjoin t to the path condition; symbols occurring together are
        joined (union-find), which partitions the condition into parts that
        have no symbol in common."""
        self.pc.append(t)
        self.solver.add(t)
        ss = self._symbols(t)
        if not ss:
            return
        it = iter(ss)
        r = self._find(next(it))
        part = self.uf_terms.setdefault(r, [])
        for x in it:
            q = self._find(x)
            if q != r:
                self.uf[q] = r
                part.extend(self.uf_terms.pop(q, ()))
        part.append(t)

    def _find(self, x):
        uf = self.uf
        while uf.get(x, x) != x:
            y = uf[x]
            uf[x] = uf.get(y, y)
            x = uf[x]
        return x

    def _symbols(self, t):
        i = t.get_id()
        hit = self.symcache.get(i)
        if hit is not None:
            return hit[1]
        out = set()
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.get_id())
        for c in t.children():
            out |= self._symbols(c)
        self.symcache[i] = (t, frozenset(out))
        return self.symcache[i][1]

    def query(self, extra, full=False):
        """Satisfiability of the path condition with extra.  Only the part of
        the condition connected to extra is given to the solver (answers are
        cached): unsat is unsat; sat is sat provided the rest is satisfiable,
        which prove() checks before it reports a failure."""
        if full:
            self.stats.queries += 1
            t0 = time.time()
            self.solver.push()
            self.solver.add(extra)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
            self.stats.solver_s += time.time() - t0
            return r, m
        roots = {self._find(x) for x in self._symbols(extra)}
        terms = [t for r in roots for t in self.uf_terms.get(r, ())]
        ids = {t.get_id(): t for t in terms}
        key = (frozenset(ids), extra.get_id())
        hit = self.qcache.get(key)
        if hit is not None:
            return hit[0], None
        self.stats.queries += 1
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*ids.values())
        s.add(extra)
        r = s.check()
        self.stats.solver_s += time.time() - t0
        self.qcache[key] = (r, extra, list(ids.values()))
        return r, None

    def decide(self, cond, label=""):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            rt, _ = self.query(cond)
            rf, _ = self.query(z3.Not(cond))
            if rt == z3.unsat and rf == z3.unsat:
                raise Infeasible()
            if rt == z3.unsat:
                d = False
            elif rf == z3.unsat:
                d = True
            else:
                d = True
                self.worklist.append(self.taken + [False])
        self.pos += 1
        self.taken.append(d)
        c = cond if d else z3.Not(cond)
        self._add(c)
        if label:
            self.trace.append("%s=%s" % (label, d))
        return d

    def choose(self, n, label=""):
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for j in range(1, n):
                self.worklist.append(self.taken + [j])
        self.pos += 1
        self.taken.append(d)
        if label:
            self.trace.append("%s:%d" % (label, d))
        return d

    def prove(self, cond, name):
        """Obligation: cond follows from the path condition."""
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        cond = z3.simplify(cond)
        key = (self.target, name)
        rec = self.obl.setdefault(key, {"instances": 0, "failed": [], "backends": set(), "solver_s": 0.0})
        if self.pos < len(self.prefix):
            # inside the replayed prefix: already proved on the path that
            # created it
            if z3.is_false(cond):
                pass
            else:
                self._add(cond)
                return True
        rec["instances"] += 1
        if z3.is_true(cond):
            rec["backends"].add("simplifier")
            return True
        t0 = time.time()
        r, m = self.query(z3.Not(cond))
        backend = "z3"
        if r != z3.unsat:
            r, m = self.query(z3.Not(cond), full=True)
        if r == z3.unknown:
            r = self.cvc5(cond)
            backend = "cvc5"
        rec["solver_s"] += time.time() - t0
        if r == z3.unsat:
            rec["backends"].add(backend)
            self._add(cond)
            return True
        res = str(r)
        if r == z3.sat and self.approximate(cond):
            res = "unknown (depends on a value the loop rule forgot)"
        f = {"name": name, "target": self.target, "result": res, "goal": str(cond)[:2000],
             "trace": list(self.trace[-TRACE:])}
        if m is not None:
            f["model"] = self.model_inputs(m)
        rec["failed"].append(f)
        # go on as if it held, to report independent failures
        if z3.is_false(cond):
            raise PathEnd()
        self._add(cond)
        return False

    def approximate(self, cond):
        """The counterexample may be an artefact: values changed by a loop
        without a suitable invariant occur in the verification condition."""
        if self.imprecise:
            return True
        if not self.havocked:
            return False
        seen = set()
        stack = [cond] + list(self.pc)
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().name() in self.havocked:
                return True
            stack.extend(t.children())
        return False

    def fail(self, name, why):
        key = (self.target, name)
        rec = self.obl.setdefault(key, {"instances": 0, "failed": [], "backends": set(), "solver_s": 0.0})
        rec["instances"] += 1
        m = None
        r = self.solver.check()
        if r == z3.unsat:
            return
        if why.startswith("uncaught") and self.approximate(z3.BoolVal(True)):
            why = "unknown (depends on a value the loop rule forgot): " + why
        f = {"name": name, "target": self.target, "result": why, "goal": "", "trace": list(self.trace[-TRACE:])}
        if r == z3.sat:
            f["model"] = self.model_inputs(self.solver.model())
        rec["failed"].append(f)

    def model_inputs(self, m):
        out = {}
        for name, t in self.inputs:
            try:
                out[name] = str(m.eval(t, model_completion=True))
            except Exception as e:      # pragma: no cover
                out[name] = "?%s" % e
        if len(out) < 60:
            for d in m.decls():
                if d.arity() == 0 and len(out) < 120:
                    out.setdefault(d.name(), str(m[d])[:200])
        return out

    def cvc5(self, cond):
        """Second opinion on an obligation z3 could not decide."""
        s = z3.Solver()
        for c in self.pc:
            s.add(c)
        s.add(z3.Not(cond))
        txt = "(set-logic ALL)\n" + s.to_smt2().replace("(check-sat)", "") + "\n(check-sat)\n"
        txt = "\n".join(l for l in txt.splitlines() if not l.startswith("(set-info"))
        self.stats.queries += 1
        t0 = time.time()
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write(txt)
            r = subprocess.run(["cvc5", "--strings-exp", "--tlimit=%d" % (self.timeout_ms * 2), f.name],
                               capture_output=True, text=True, timeout=self.timeout_ms / 1000 * 3 + 10)
            out = r.stdout.strip().splitlines()
            ans = out[0] if out else "unknown"
        except Exception:
            ans = "unknown"
        finally:
            os.unlink(f.name)
        self.stats.solver_s += time.time() - t0
        return {"unsat": z3.unsat, "sat": z3.sat}.get(ans, z3.unknown)

    def explore(self, target, run, spec):
        """Verify one target over all its paths; returns the obligation table."""
        self.target = target
        self.spec = spec
        self.qcache = {}
        self.symcache = {}
        self.loop_mods = {}
        self.loop_drop = set()
        self.loop_exits = set()
        self.lazy_comps = set()
        t0 = time.time()
        restarts = 0
        while True:
            self.obl = {}
            self.worklist = [[]]
            paths = complete = 0
            loop_cut = False
            try:
                while self.worklist:
                    prefix = self.worklist.pop()
                    paths += 1
                    if paths > self.max_paths or time.time() - t0 > self.time_limit:
                        self.reset_path([])
                        self.fail("exploration complete", "resource limit: %d paths, %.0f s" % (paths, time.time() - t0))
                        loop_cut = loop_cut or bool(self.loop_mods)
                        break
                    self.reset_path(prefix)
                    try:
                        run(self)
                        if self.solver.check() != z3.unsat:
                            complete += 1
                    except PathEnd:
                        pass
                    except Unsupported as u:
                        if os.environ.get("PYVC_DEBUG"):
                            import traceback
                            traceback.print_exc()
                        self.fail("within the verified subset", "unsupported: %s" % u)
                        # what the rest of that loop body modifies is unknown
                        loop_cut = loop_cut or bool(self.loops)
                    except PyExc as e:
                        if os.environ.get("PYVC_DEBUG"):
                            import traceback
                            traceback.print_exc()
                        self.fail("no unexpected exception", "uncaught %s" % self.describe_exc(e.value))
                    except (ReturnEx, BreakEx, ContinueEx) as e:
                        self.fail("within the verified subset", "stray control flow %r" % e)
                    except RecursionError:
                        self.fail("within the verified subset", "recursion limit")
            except Restart:
                restarts += 1
                if restarts > 60:
                    self.reset_path([])
                    self.fail("exploration complete", "loop inference did not converge")
                    break
                continue
            break
        if loop_cut:
            # states after the loop were built without knowing everything it changes: nothing is refuted
            for o in self.obl.values():
                for f in o["failed"]:
                    if f["result"] == "sat" or f["result"].startswith("uncaught"):
                        f["result"] = "undecided (a loop body is outside the verified subset): " + f["result"]
        if not complete:
            self.reset_path([])
            self.fail("reachable (non-vacuous contract)", "no complete feasible path")
        else:
            self.obl.setdefault((target, "reachable (non-vacuous contract)"),
                                {"instances": 1, "failed": [], "backends": {"z3"}, "solver_s": 0.0})
        return {"target": target, "paths": paths, "complete": complete, "wall_s": time.time() - t0,
                "obligations": self.obl}

    def describe_exc(self, v):
        if isinstance(v, (Ref, FRef)):
            msg = self.heap[v.oid].extra if isinstance(v, Ref) else ""
            return "%s %s" % (getattr(v.cls, "qualname", v.cls), msg or "")
        return repr(v)

    # ------------------------------------------------------------ heap
    def alloc(self, cls, content=None):
        oid = self.next_oid
        self.next_oid += 1
        o = Obj()
        o.content = content
        self.heap[oid] = o
        return Ref(oid, cls)

    def new_list(self, rope=None, cls=None):
        if isinstance(rope, list):
            rope = Rope([Elems(rope)])
        return self.alloc(cls or self.extclass("builtins.list"), rope or Rope())

    def new_dict(self, rep=None, cls=None):
        return self.alloc(cls or self.extclass("builtins.dict"), rep or DictRep())

    def new_obj(self, cls, **attrs):
        r = self.alloc(cls)
        self.heap[r.oid].attrs.update(attrs)
        return r

    purity = None

    def note_write(self, loc):
        if self.purity is not None and not (loc[0] in ("attr", "content") and loc[1] >= self.purity):
            raise Unsupported("side effect in a comprehension over a symbolic sequence: %s" % (loc,))
        for L in self.loops:
            if loc[0] in ("attr", "content", "attrdel") and loc[1] >= L.entry["next_oid"]:
                continue
            if loc not in L.mods:
                L.mods.add(loc)
                self.loop_mods.setdefault(L.key, set()).add(loc)
                raise Restart()

    def snapshot(self):
        return {"heap": {k: o.copy() for k, o in self.heap.items()},
                "famw": {k: list(v) for k, v in self.famw.items()},
                "ghost": dict(self.ghost), "next_oid": self.next_oid,
                "globals": dict(self.globals)}

    def with_snapshot(self, snap, thunk):
        """Evaluate thunk in an older state; no writes to old objects."""
        saved = (self.heap, self.famw, self.ghost)
        self.heap = {k: o.copy() for k, o in snap["heap"].items()}
        self.famw = {k: list(v) for k, v in snap["famw"].items()}
        self.ghost = dict(snap["ghost"])
        try:
            return thunk()
        finally:
            new = {k: o for k, o in self.heap.items() if k >= snap["next_oid"]}
            self.heap, self.famw, self.ghost = saved
            for k, o in new.items():
                self.heap.setdefault(k, o)

    def ghost_set(self, name, v):
        self.note_write(("ghost", name))
        self.ghost[name] = v

    def content(self, ref):
        if isinstance(ref, FRef):
            c = self.fam_read(ref, "$content")
            return c
        return self.heap[ref.oid].content

    def set_content(self, ref, c):
        if isinstance(ref, FRef):
            raise Unsupported("container mutation through a symbolic reference")
        self.note_write(("content", ref.oid))
        self.heap[ref.oid].content = c

    def fam_read(self, ref, attr):
        for key, a, v in reversed(self.famw.get(ref.fam.name, [])):
            if a != attr:
                continue
            if callable(key):           # written for every member that satisfies it
                if self.decide(key(ref.key), "member"):
                    return v
                continue
            if key.eq(ref.key) or self.decide(key == ref.key, "alias"):
                return v
        if attr not in ref.fam.fields:
            return None
        return ref.fam.base(ref.key, attr)

    def get_raw(self, ref, attr):
        """Instance attribute or None."""
        if isinstance(ref, Ref):
            return self.heap[ref.oid].attrs.get(attr)
        return self.fam_read(ref, attr)

    def set_raw(self, ref, attr, v):
        if isinstance(ref, Ref):
            self.note_write(("attr", ref.oid, attr))
            self.heap[ref.oid].attrs[attr] = v
        else:
            self.note_write(("fam", ref.fam.name, attr))
            self.famw.setdefault(ref.fam.name, []).append((ref.key, attr, v))

    def set_all(self, fam, pred, attr, v):
        """fam[k].attr = v for every k with pred(k)."""
        self.note_write(("fam", fam.name, attr))
        self.famw.setdefault(fam.name, []).append((pred, attr, v))

    def touch(self, seq, idx):
        """Register idx as an index of interest of seq: facts about seq are
        instantiated there, and at the corresponding index of sequences
        derived from seq."""
        idx = z3.simplify(idx)
        done = seq.__dict__.setdefault("_touched_set", set())
        k = str(idx)
        if k in done:
            return
        done.add(k)
        seq.__dict__.setdefault("_touched_idx", []).append(idx)
        for f in list(seq.__dict__.get("_facts", ())):
            f(idx)
        for child, off in list(seq.__dict__.get("_children", ())):
            self.touch(child, z3.simplify(idx - off))

    def derive(self, child, seq, off):
        """child[i] depends on seq[off + i]."""
        seq.__dict__.setdefault("_children", []).append((child, off))
        for idx in list(seq.__dict__.get("_touched_idx", ())):
            self.touch(child, z3.simplify(idx - off))

    def add_fact(self, seq, f):
        """f(idx) assumes a fact for that index; instantiated for every index
        of seq ever accessed."""
        seq.__dict__.setdefault("_facts", []).append(f)
        for idx in list(seq.__dict__.get("_touched_idx", ())):
            f(idx)

    # ------------------------------------------------------------ helpers
    def force(self, v):
        while isinstance(v, (VLazy, VCase)):
            if isinstance(v, VCase):
                for c, th in v.alts[:-1]:
                    if self.decide(c, "case"):
                        v = th()
                        break
                else:
                    v = v.alts[-1][1]()
                continue
            if v.name not in self.lazy:
                k = self.choose(len(v.alts), "shape(%s)" % v.name)
                self.trace.append("%s is %s" % (v.name, v.alts[k][0]))
                self.lazy[v.name] = (v.alts[k][0], v.alts[k][1]())
            v = self.lazy[v.name][1]
        if isinstance(v, VPoison):
            raise Unsupported("value not determined by the loop invariant (%s)" % v.why)
        return v

    def raise_py(self, clsname, msg=""):
        ci = self.extclass("builtins." + clsname) if isinstance(clsname, str) else clsname
        r = self.alloc(ci)
        self.heap[r.oid].extra = msg
        self.heap[r.oid].attrs["args"] = VTuple([VStr(msg)] if msg else [])
        raise PyExc(r)

    def enc(self, v):
        v = self.force(v)
        if isinstance(v, VNone):
            return Val.none
        if isinstance(v, VBool):
            return Val.b(v.t)
        if isinstance(v, VInt):
            return Val.i(v.t)
        if isinstance(v, VStr):
            return Val.s(v.t)
        if isinstance(v, VBytes):
            return Val.y(v.t)
        if isinstance(v, VOpaque):
            return Val.o(v.t)
        if isinstance(v, VVal):
            return v.t
        if isinstance(v, Ref):
            return Val.r(I(v.oid))
        if isinstance(v, FRef):
            f = z3.Function("ref_" + v.fam.name, v.key.sort(), U)
            return Val.o(f(v.key))
        if isinstance(v, VTuple):
            f = z3.Function("tuple_of", SeqVal, U)
            return Val.o(f(self.enc_rope(v.rope)))
        if isinstance(v, (VExt, VModule, VClass, VFunc, VNative, VBound, VGen, VCoro)):
            return Val.o(z3.Const("pyobj_%s" % (repr(v),), U))
        raise Unsupported("cannot encode %r" % (v,))

    def enc_rope(self, rope):
        parts = []
        for s in rope.segs:
            if isinstance(s, Elems):
                parts += [z3.Unit(self.enc(v)) for v in s.items]
            else:
                st = s.seq.seqterm(self)
                full = z3.is_int_value(z3.simplify(s.off)) and z3.simplify(s.off).as_long() == 0 and s.n.eq(s.seq.n)
                parts.append(st if full else z3.SubSeq(st, s.off, s.n))
        if not parts:
            return z3.Empty(SeqVal)
        if len(parts) == 1:
            return parts[0]
        return z3.Concat(*parts)

    def truthy(self, v):
        if isinstance(v, VCase):
            return self.models.case_bool(v, self.truthy)
        v = self.force(v)
        if isinstance(v, VNone):
            return z3.BoolVal(False)
        if isinstance(v, VBool):
            return v.t
        if isinstance(v, VInt):
            return v.t != 0
        if isinstance(v, (VStr, VBytes)):
            return z3.Length(v.t) > 0
        if isinstance(v, VTuple):
            return v.rope.length() > 0
        if isinstance(v, VOpaque):
            if "__bool__" in v.methods:
                return self.truthy(v.methods["__bool__"](self, v))
            return z3.Function("truthy", U, z3.BoolSort())(v.t)
        if isinstance(v, VVal):
            return z3.Function("truthy_val", Val, z3.BoolSort())(v.t)
        if isinstance(v, (Ref, FRef)):
            m = self.lookup_class(v.cls, "__bool__") if isinstance(v.cls, ClassInfo) else None
            if m:
                return self.truthy(self.call(VBound(m[1], v), [], {}))
            m = self.lookup_class(v.cls, "__len__") if isinstance(v.cls, ClassInfo) else None
            if m:
                return self.truthy(self.call(VBound(m[1], v), [], {}))
            c = self.content(v)
            if isinstance(c, Rope):
                return self.models.rope_nonempty(self, c)
            if isinstance(c, DictRep):
                return self.models.dict_len(self, c) > 0
            return z3.BoolVal(True)
        return z3.BoolVal(True)

    def branch(self, v, label=""):
        return self.decide(self.truthy(v), label)

    # equality of Python values as a z3 term
    def eq(self, a, b):
        if a is b and isinstance(a, VCase):
            return z3.BoolVal(True)
        if isinstance(a, VCase):
            return self.models.case_bool(a, lambda x: self.eq(x, b))
        if isinstance(b, VCase):
            return self.models.case_bool(b, lambda x: self.eq(a, x))
        a, b = self.force(a), self.force(b)
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        if isinstance(a, VBool) and isinstance(b, VInt):
            a = VInt(z3.If(a.t, I(1), I(0)))
        if isinstance(b, VBool) and isinstance(a, VInt):
            b = VInt(z3.If(b.t, I(1), I(0)))
        for k in (VInt, VStr, VBytes, VBool):
            if isinstance(a, k) and isinstance(b, k):
                return a.t == b.t
        if isinstance(a, VNone) and isinstance(b, VNone):
            return T
        if isinstance(a, VVal) or isinstance(b, VVal):
            return self.enc(a) == self.enc(b)
        if isinstance(a, VOpaque) and isinstance(b, VOpaque):
            return a.t == b.t
        if isinstance(a, VTuple) and isinstance(b, VTuple):
            x, y = a.rope, b.rope
            if x.is_concrete and y.is_concrete:
                x, y = x.concrete(), y.concrete()
                if len(x) != len(y):
                    return F
                return z3.And([self.eq(p, q) for p, q in zip(x, y)] or [T])
            return self.enc_rope(x) == self.enc_rope(y)
        if isinstance(a, (Ref, FRef)) and isinstance(b, (Ref, FRef)):
            ci = a.cls
            if isinstance(ci, ClassInfo):
                m = self.lookup_class(ci, "__eq__")
                if m:
                    return self.truthy(self.call(VBound(m[1], a), [b], {}))
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, Rope) and isinstance(cb, Rope):
                if ca.is_concrete and cb.is_concrete:
                    x, y = ca.concrete(), cb.concrete()
                    if len(x) != len(y):
                        return F
                    return z3.And([self.eq(p, q) for p, q in zip(x, y)] or [T])
                return self.enc_rope(ca) == self.enc_rope(cb)
            if isinstance(ca, DictRep) and isinstance(cb, DictRep) and not self.identical_syn(a, b):
                raise Unsupported("dict comparison")
            return self.same(a, b)
        if isinstance(a, (VClass, VExt, VModule, VFunc, VNative, VBound)) and \
           isinstance(b, (VClass, VExt, VModule, VFunc, VNative, VBound)):
            return self.same(a, b)
        return self.same(a, b)

    def identical_syn(self, a, b):
        return isinstance(a, Ref) and isinstance(b, Ref) and a.oid == b.oid

    # identity as a z3 term
    def same(self, a, b):
        if a is b and isinstance(a, VCase):
            return z3.BoolVal(True)
        if isinstance(a, VCase):
            return self.models.case_bool(a, lambda x: self.same(x, b))
        if isinstance(b, VCase):
            return self.models.case_bool(b, lambda x: self.same(a, x))
        a, b = self.force(a), self.force(b)
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        if a is b:
            return T
        if isinstance(a, Ref) and isinstance(b, Ref):
            return T if a.oid == b.oid else F
        if isinstance(a, FRef) and isinstance(b, FRef):
            if a.fam is b.fam:
                return a.key == b.key
            return F
        if isinstance(a, VNone) or isinstance(b, VNone):
            if isinstance(a, VVal) or isinstance(b, VVal):
                return self.enc(a) == self.enc(b)
            return T if isinstance(a, VNone) and isinstance(b, VNone) else F
        for k in (VBool, VInt, VStr, VBytes, VOpaque, VVal):
            if isinstance(a, k) and isinstance(b, k):
                return a.t == b.t
        if isinstance(a, VVal) or isinstance(b, VVal):
            return self.enc(a) == self.enc(b)
        if isinstance(a, VClass) and isinstance(b, VClass):
            return T if a.info is b.info else F
        if isinstance(a, (VExt, VModule)) and isinstance(b, (VExt, VModule)):
            return T if a.name == b.name else F
        if isinstance(a, VFunc) and isinstance(b, VFunc):
            return T if a.node is b.node and a.closure is b.closure else F
        if isinstance(a, VBound) and isinstance(b, VBound):
            return z3.And(self.same(a.self, b.self), self.same(a.func, b.func))
        if isinstance(a, VNative) and isinstance(b, VNative):
            return T if a.fn is b.fn else F
        return F

    # ------------------------------------------------------ attribute access
    def getattr(self, v, name, default=SENTINEL):
        v = self.force(v)
        try:
            return self._getattr(v, name)
        except PyExc as e:
            if default is not SENTINEL and self.exc_matches(e.value, self.extclass("builtins.AttributeError")):
                return default
            raise

    def _getattr(self, v, name):
        if isinstance(v, VModule):
            return self.module_attr(v.name, name)
        if isinstance(v, VExt):
            return self.models.ext_attr(self, v, name)
        if isinstance(v, (Ref, FRef)):
            return self.obj_getattr(v, name)
        if isinstance(v, VClass):
            return self.class_getattr(v, name)
        if isinstance(v, VSuper):
            mro = self.mro(self.class_of(v.self))
            i = mro.index(v.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassInfo) and name in c.bindings:
                    return self.bind(self.class_attr(c, name), v.self, c)
            return VBuiltinMethod(v.self, name)
        if isinstance(v, VBound):
            if name == "__self__":
                return v.self
            if name == "__func__":
                return v.func
            return self._getattr(v.func, name)
        if isinstance(v, VFunc):
            ov = self.extstate.get(("fattr", id(v.node), name))
            if ov is not None:
                return ov
            if name == "__name__":
                return VStr(v.node.name)
            if name == "__module__":
                return VStr(v.module.name)
            if name in ("__code__", "__globals__", "__defaults__", "__closure__", "__doc__", "__qualname__"):
                return VOpaque(z3.Const("fn_%s_%s" % (v.qualname, name), U), label=name)
            self.raise_py("AttributeError", name)
        if isinstance(v, VProperty) and name in ("setter", "getter", "deleter"):
            return VBuiltinMethod(v, name)
        return self.models.builtin_attr(self, v, name)

    def class_of(self, v):
        v = self.force(v)
        if isinstance(v, (Ref, FRef)):
            return v.cls
        return None

    def bind(self, a, obj, owner):
        if isinstance(a, VFunc):
            return VBound(a, obj)
        if isinstance(a, VProperty):
            if a.fget is None:
                self.raise_py("AttributeError", "unreadable attribute")
            return self.call(VBound(a.fget, obj), [], {})
        if isinstance(a, VMethodKind):
            if a.kind == "classmethod":
                return VBound(a.func, VClass(self.class_of(obj)) if not isinstance(obj, VClass) else obj)
            if a.kind == "contextmanager":
                return VBound(a, obj)
            return a.func
        if isinstance(a, VNative):
            return VBound(a, obj)
        return a

    def obj_getattr(self, v, name):
        ci = v.cls
        if isinstance(ci, ClassInfo):
            hit = self.lookup_class(ci, name)
            if hit and isinstance(hit[1], VProperty):
                return self.bind(hit[1], v, hit[0])
        raw = self.get_raw(v, name)
        if raw is not None:
            return raw
        if isinstance(ci, ClassInfo):
            if hit:
                return self.bind(hit[1], v, hit[0])
        if name == "__class__":
            return VClass(ci) if isinstance(ci, ClassInfo) else VExt(ci.name)
        if name == "__dict__":
            return VAttrDict(v)
        hook = self.spec.ext_methods.get((getattr(ci, "qualname", None), name)) if self.spec else None
        if hook:
            return VBound(VNative(hook, name), v)
        m = self.models.ext_base_method(self, v, name)
        if m is not None:
            return m
        if isinstance(ci, ClassInfo):
            g = self.lookup_class(ci, "__getattr__")
            if g:
                return self.call(VBound(g[1], v), [VStr(name)], {})
        self.raise_py("AttributeError", "%s.%s" % (getattr(ci, "name", ci), name))

    def class_getattr(self, v, name):
        hit = self.lookup_class(v.info, name)
        key = (v.info, "$set", name)
        if key in self.classattrs:
            return self.classattrs[key]
        if hit:
            a = hit[1]
            if isinstance(a, VMethodKind):
                return VBound(a.func, v) if a.kind == "classmethod" else (a if a.kind == "contextmanager" else a.func)
            return a
        if name == "__name__":
            return VStr(v.info.name)
        if name == "__module__":
            return VStr(v.info.module.name)
        if name in ("__init__", "__new__", "__setattr__", "__getattribute__", "__delattr__"):
            return VBuiltinMethod(v, name)
        for b in self.mro(v.info):
            if isinstance(b, ExtClass):
                return self.models.ext_attr(self, VExt(b.name), name)
        self.raise_py("AttributeError", name)

    def setattr(self, v, name, val):
        v = self.force(v)
        if isinstance(v, (Ref, FRef)):
            ci = v.cls
            if isinstance(ci, ClassInfo):
                hit = self.lookup_class(ci, name)
                if hit and isinstance(hit[1], VProperty):
                    if hit[1].fset is None:
                        self.raise_py("AttributeError", "can't set attribute")
                    self.call(VBound(hit[1].fset, v), [val], {})
                    return
                s = self.lookup_class(ci, "__setattr__")
                if s:
                    self.call(VBound(s[1], v), [VStr(name), val], {})
                    return
            self.set_raw(v, name, val)
            return
        if isinstance(v, VModule):
            self.note_write(("global", v.name, name))
            self.globals[(v.name, name)] = val
            return
        if isinstance(v, VFunc):
            self.extstate[("fattr", id(v.node), name)] = val
            return
        if isinstance(v, VClass):
            if self.loops:
                raise Unsupported("class attribute assignment in a loop")
            self.classattrs[(v.info, "$set", name)] = val
            self.classattrs[(v.info, name)] = val
            v.info.bindings.setdefault(name, [])
            return
        if isinstance(v, VExt):
            h = self.spec.ext_setattr.get("%s.%s" % (v.name, name))
            if h:
                h(self, val)
                return
        raise Unsupported("attribute assignment on %r" % (v,))

    def delattr(self, v, name):
        v = self.force(v)
        if isinstance(v, Ref):
            hit = self.lookup_class(v.cls, name) if isinstance(v.cls, ClassInfo) else None
            if hit and isinstance(hit[1], VProperty) and hit[1].fdel:
                self.call(VBound(hit[1].fdel, v), [], {})
                return
            self.note_write(("attr", v.oid, name))
            if self.heap[v.oid].attrs.pop(name, None) is None:
                self.raise_py("AttributeError", name)
            return
        raise Unsupported("del attribute of %r" % (v,))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.force(f)
        if isinstance(f, VBound):
            if isinstance(f.func, VMethodKind):         # contextmanager method
                return self.models.make_contextmanager(self, f.func.func, [f.self] + list(args), kwargs)
            return self.call(f.func, [f.self] + list(args), kwargs)
        if isinstance(f, VMethodKind):
            if f.kind == "contextmanager":
                return self.models.make_contextmanager(self, f.func, args, kwargs)
            return self.call(f.func, args, kwargs)
        if isinstance(f, VFunc):
            return self.call_function(f, args, kwargs)
        if isinstance(f, VNative):
            return f.fn(self, *args, **kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f.info, args, kwargs)
        if isinstance(f, VExt):
            return self.models.call_ext(self, f.name, args, kwargs)
        if isinstance(f, VBuiltinMethod):
            return self.models.call_method(self, f.obj, f.name, args, kwargs)
        if isinstance(f, (Ref, FRef)):
            if isinstance(f.cls, ClassInfo):
                hit = self.lookup_class(f.cls, "__call__")
                if hit:
                    return self.call(self.bind(hit[1], f, hit[0]), args, kwargs)
            raw = self.get_raw(f, "$call")
            if raw is not None:
                return self.call(raw, args, kwargs)
            self.raise_py("TypeError", "not callable")
        if isinstance(f, VOpaque):
            m = f.methods.get("__call__")
            if m:
                return m(self, f, *args, **kwargs)
        if isinstance(f, (VNone, VStr, VInt, VBool, VTuple, VBytes)):
            self.raise_py("TypeError", "not callable")
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, ci, args, kwargs):
        h = self.spec.contracts.get(ci.qualname) if self.spec else None
        if h:
            self.contract_calls.add(ci.qualname)
            return h(self, *args, **kwargs)
        new = self.lookup_class(ci, "__new__")
        if new:
            f = new[1]
            if isinstance(f, VMethodKind):
                f = f.func
            obj = self.call(f, [VClass(ci)] + list(args), kwargs)
            obj = self.force(obj)
            if not (isinstance(obj, (Ref, FRef)) and self.is_subclass(obj.cls, ci)):
                return obj
        else:
            obj = self.models.ext_new(self, ci)
        init = self.lookup_class(obj.cls, "__init__")
        if init:
            self.call(self.bind(init[1], obj, init[0]), args, kwargs)
        else:
            self.models.ext_init(self, obj, args, kwargs)
        return obj

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        starrope = None
        # a symbolic * argument may only land in *param
        flat = []
        for x in args:
            if isinstance(x, StarArg):
                if x.rope.is_concrete and starrope is None:
                    flat += x.rope.concrete()
                else:
                    starrope = (starrope or Rope([Elems(flat[len(names):])])) + x.rope
                    if len(flat) < len(names):
                        raise Unsupported("symbolic *args against named parameters")
                    flat = flat[:len(names)]
            elif starrope is not None:
                starrope = starrope.append(x)
            else:
                flat.append(x)
        args = flat
        for n, v in zip(names, args):
            loc[n] = v
        extra = Rope([Elems(args[len(names):])])
        if starrope is not None:
            extra = starrope
        if a.vararg:
            loc[a.vararg.arg] = VTuple(extra)
        elif extra.segs:
            self.raise_py("TypeError", "%s: too many positional arguments" % f.qualname)
        kw = {}
        kwrep = None
        for n, v in kwargs.items():
            if n == "**":
                kwrep = v
                continue
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                if n in loc:
                    self.raise_py("TypeError", "multiple values for %s" % n)
                loc[n] = v
            else:
                kw[n] = v
        if a.kwarg:
            rep = kwrep if kwrep is not None else DictRep()
            for n, v in kw.items():
                rep = DictRep(rep.base, rep.over + ((VStr(n), v),))
            loc[a.kwarg.arg] = self.new_dict(rep)
        elif kw:
            self.raise_py("TypeError", "%s: unexpected keyword %s" % (f.qualname, sorted(kw)[0]))
        elif kwrep is not None:
            raise Unsupported("symbolic **kwargs against named parameters")
        dn = names[len(names) - len(f.defaults):] if f.defaults else []
        for n, v in zip(dn, f.defaults):
            loc.setdefault(n, v)
        for n, v in f.kwdefaults.items():
            loc.setdefault(n, v)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in loc:
                self.raise_py("TypeError", "%s: missing argument %s" % (f.qualname, n))
        return loc

    def call_function(self, f, args, kwargs, force_inline=False):
        if not force_inline and self.spec is not None:
            h = self.spec.contracts.get(f.qualname)
            if h is not None:
                self.contract_calls.add(f.qualname)
                return h(self, *args, **kwargs)
        self.inlined.add(f.qualname)
        if isinstance(f.node, ast.Lambda):
            loc = self.bind_args(f, args, kwargs)
            fr = Frame(f.module, f, f.closure)
            fr.locals = loc
            return self.eval(f.node.body, fr)
        loc = self.bind_args(f, args, kwargs)
        fr = Frame(f.module, f, f.closure, f.cls)
        fr.locals = loc
        isgen = is_generator(f.node)
        if isinstance(f.node, ast.AsyncFunctionDef) and not isgen:
            return VCoro(lambda: self.run_body(f, fr), f.qualname)
        if isgen:
            def run(on_yield):
                fr.on_yield = on_yield
                return self.run_body(f, fr)
            return VGen(run, f.qualname, isinstance(f.node, ast.AsyncFunctionDef))
        return self.run_body(f, fr)

    def run_body(self, f, fr):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("inlining depth (recursive function without contract: %s)" % f.qualname)
        try:
            self.exec_block(f.node.body, fr)
        except ReturnEx as r:
            return r.value
        finally:
            self.depth -= 1
        return NONE

    def await_(self, v):
        v = self.force(v)
        if isinstance(v, VCoro):
            if v.state != "created":
                self.raise_py("RuntimeError", "cannot reuse already awaited coroutine")
            v.state = "done"
            return v.run()
        h = self.spec.on_await if self.spec else None
        if h:
            return h(self, v)
        raise Unsupported("await on %r" % (v,))

    # ------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for st in body:
            self.exec(st, fr)

    def exec(self, st, fr):
        m = getattr(self, "exec_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        return m(st, fr)

    def exec_Pass(self, st, fr):
        pass

    def exec_Expr(self, st, fr):
        self.eval(st.value, fr)

    def exec_Return(self, st, fr):
        raise ReturnEx(self.eval(st.value, fr) if st.value is not None else NONE)

    def exec_Break(self, st, fr):
        raise BreakEx()

    def exec_Continue(self, st, fr):
        raise ContinueEx()

    def exec_Global(self, st, fr):
        fr.globals_decl.update(st.names)

    def exec_Nonlocal(self, st, fr):
        fr.nonlocals.update(st.names)

    def exec_Import(self, st, fr):
        for a in st.names:
            self.bind_name(a.asname or a.name.split(".")[0], self.import_value(fr.module, st, a), fr)

    def exec_ImportFrom(self, st, fr):
        for a in st.names:
            self.bind_name(a.asname or a.name, self.import_value(fr.module, st, a), fr)

    def exec_FunctionDef(self, st, fr):
        v = self.make_function(st, fr, None, self.nested_name(st.name, fr))
        v = self.apply_decorators(st, v, fr)
        self.bind_name(st.name, v, fr)

    exec_AsyncFunctionDef = exec_FunctionDef

    def nested_name(self, name, fr):
        q = fr.func.qualname if fr.func is not None else fr.module.name
        return "%s.<locals>.%s" % (q, name)

    def exec_ClassDef(self, st, fr):
        self.bind_name(st.name, VClass(self.class_info(st, fr.module, self.nested_name(st.name, fr), fr)), fr)

    def exec_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def exec_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def exec_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            new = self.models.binop(self, type(st.op).__name__, cur, self.eval(st.value, fr), inplace=True)
            self.bind_name(t.id, new, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            new = self.models.binop(self, type(st.op).__name__, cur, self.eval(st.value, fr), inplace=True)
            self.setattr(o, t.attr, new)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.models.getitem(self, o, k)
            new = self.models.binop(self, type(st.op).__name__, cur, self.eval(st.value, fr), inplace=True)
            self.models.setitem(self, o, k, new)
        else:
            raise Unsupported("augmented assignment target")

    def exec_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.eval(t.value, fr), self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.eval(t.value, fr), t.attr)
            else:
                raise Unsupported("del target")

    def exec_If(self, st, fr):
        if self.branch(self.eval(st.test, fr), "L%d" % st.lineno):
            self.exec_block(st.body, fr)
        else:
            self.exec_block(st.orelse, fr)

    def exec_Assert(self, st, fr):
        if not self.branch(self.eval(st.test, fr), "assert L%d" % st.lineno):
            if st.msg is not None:
                self.eval(st.msg, fr)
            self.raise_py("AssertionError", "L%d" % st.lineno)

    def exec_Raise(self, st, fr):
        if st.exc is None:
            if not self.handling:
                self.raise_py("RuntimeError", "no active exception")
            raise PyExc(self.handling[-1])
        v = self.force(self.eval(st.exc, fr))
        if st.cause is not None:
            self.eval(st.cause, fr)
        if isinstance(v, VClass):
            v = self.instantiate(v.info, [], {})
        elif isinstance(v, VExt):
            v = self.alloc(self.extclass(v.name))
        elif not isinstance(v, (Ref, FRef)) and not isinstance(v, VOpaque):
            self.raise_py("TypeError", "exceptions must derive from BaseException")
        raise PyExc(v)

    def exc_matches(self, exc, cls):
        c = self.class_of(exc)
        if c is None:
            if isinstance(exc, VOpaque):
                if cls.name in ("builtins.BaseException",) or cls.name in exc.types:
                    return True
                return False
            raise Unsupported("exception value %r" % (exc,))
        return self.is_subclass(c, cls)

    def handler_matches(self, exc, typ, fr):
        v = self.force(self.eval(typ, fr))
        items = v.items if isinstance(v, VTuple) else [v]
        for it in items:
            it = self.force(it)
            c = it.info if isinstance(it, VClass) else self.extclass(it.name)
            if self.exc_matches(exc, c):
                return True
        return False

    def exec_Try(self, st, fr):
        def inner():
            try:
                self.exec_block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.handler_matches(e.value, h.type, fr):
                        if h.name:
                            self.bind_name(h.name, e.value, fr)
                        self.handling.append(e.value)
                        try:
                            self.exec_block(h.body, fr)
                        finally:
                            self.handling.pop()
                        if h.name:
                            fr.locals.pop(h.name, None)
                        return
                raise
            else:
                self.exec_block(st.orelse, fr)
        if not st.finalbody:
            inner()
            return
        try:
            inner()
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(st.finalbody, fr)
            raise
        self.exec_block(st.finalbody, fr)

    def exec_With(self, st, fr):
        self._with(st.items, st.body, fr)

    def exec_AsyncWith(self, st, fr):
        raise Unsupported("async with")

    def _with(self, items, body, fr):
        if not items:
            self.exec_block(body, fr)
            return
        it = items[0]
        mgr = self.force(self.eval(it.context_expr, fr))
        if isinstance(mgr, self.models.VGenCM):
            return self._with_gen(mgr, it, items, body, fr)
        enter, exit_ = self.models.context_manager(self, mgr)
        v = enter()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        try:
            self._with(items[1:], body, fr)
        except PyExc as e:
            if not exit_(e.value):
                raise
        except (ReturnEx, BreakEx, ContinueEx):
            exit_(None)
            raise
        else:
            exit_(None)

    def _with_gen(self, mgr, it, items, body, fr):
        """with on a contextlib.contextmanager: the body runs at the yield."""
        pending = []
        ran = []

        def on_yield(v):
            if ran:
                raise Unsupported("context manager yields twice")
            ran.append(1)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            try:
                self._with(items[1:], body, fr)
            except (ReturnEx, BreakEx, ContinueEx) as e:
                pending.append(e)
            return NONE
        mgr.gen.run(on_yield)
        if not ran:
            self.raise_py("RuntimeError", "generator didn't yield")
        if pending:
            raise pending[0]

    # ------------------------------------------------------ loops
    def exec_For(self, st, fr):
        it = self.eval(st.iter, fr)
        c = getattr(st, "collects", None)
        if c is not None and not (self.spec and self.spec.iterate):
            X = fr.locals.get(c[0])
            it = self.force(it)
            if isinstance(X, Ref) and not isinstance(it, VGen) and isinstance(self.heap[X.oid].content, Rope) and not self.heap[X.oid].content.segs:
                rope = self.models.iter_rope(self, it)
                if not rope.is_concrete and (id(st) in self.lazy_comps or all(isinstance(s, Elems) or self.loop_spec(s.seq.tag) is None for s in rope.segs)):
                    self.set_content(X, self.models.lazy_comp(self, c[1], fr, rope))
                    return
                it = self.models.VView(rope)
                self.collecting.append((id(st), X.oid))
                try:
                    return self._exec_for(st, it, fr)
                finally:
                    self.collecting.pop()
        return self._exec_for(st, it, fr)

    def _exec_for(self, st, it, fr):

        def body(v):
            self.assign(st.target, v, fr)
            try:
                self.exec_block(st.body, fr)
            except ContinueEx:
                pass
        names = stored_names(st.body) | stored_names([ast.Expr(st.target)])
        if self.iterate(it, body, fr, names, "L%d" % st.lineno, getattr(st, "is_async", False)) == "done":
            self.exec_block(st.orelse, fr)

    def exec_AsyncFor(self, st, fr):
        it = self.eval(st.iter, fr)

        def body(v):
            self.assign(st.target, v, fr)
            try:
                self.exec_block(st.body, fr)
            except ContinueEx:
                pass
        names = stored_names(st.body) | stored_names([ast.Expr(st.target)])
        if self.iterate(it, body, fr, names, "L%d" % st.lineno, True) == "done":
            self.exec_block(st.orelse, fr)

    def iterate(self, it, body, fr, names, label, is_async=False):
        """Run body(element) for all elements; 'done' or 'break'."""
        it = self.force(it)
        if isinstance(it, VGen):
            if it.started:
                return "done"
            it.started = True

            def on_yield(v):
                # break inside the consumer ends the generator
                try:
                    body(v)
                except BreakEx:
                    raise GenBreak(it)
                except ReturnEx as r:
                    raise GenReturn(it, r)
                return NONE
            try:
                it.run(on_yield)
            except GenBreak as b:
                if b.gen is it:
                    return "break"
                raise
            except GenReturn as b:
                if b.gen is it:
                    raise b.ret
                raise
            return "done"
        hook = self.spec.iterate if self.spec else None
        if hook:
            r = hook(self, it, body, fr, names, is_async)
            if r is not None:
                return r
        rope = self.models.iter_rope(self, it)
        try:
            for seg in rope.segs:
                if isinstance(seg, Elems):
                    for v in seg.items:
                        body(v)
                else:
                    if self.loop_rule(seg, body, fr, names, label) == "break":
                        return "break"
        except BreakEx:
            return "break"
        return "done"

    def loop_rule(self, seg, body, fr, names, label, indexed=False):
        flt = getattr(seg.seq, "filter_of", None)
        if flt is not None and z3.simplify(seg.n).eq(z3.simplify(seg.seq.n)) and z3.is_int_value(z3.simplify(seg.off)) \
           and z3.simplify(seg.off).as_long() == 0 and seg.seq.tag not in self.spec.loops:
            # what was selected, in its order: the invariants are about what it was selected from
            source, cond, _, inv = flt
            inner, chosen = body, seg

            def selected(elem, i):
                if self.decide(cond(i), "selected"):
                    v = chosen.seq.at(self, inv(i))
                    inner(v, inv(i)) if indexed else inner(v)
            return self.loop_rule(source, selected, fr, names, label, True)
        if not indexed:
            plain = body
            body = lambda elem, i: plain(elem)
        n = seg.n
        if self.decide(n <= 0, "empty %s" % seg.seq.tag):
            return "done"
        # object numbers depend on the path: so does what the loop modifies
        key = ("for", fr.func.qualname if fr.func else "", seg.seq.tag, len(self.loops), self.next_oid)
        L = LoopCtx(self, fr, key)
        L.chunk, L.n, L.seg = seg.seq, n, seg
        spec = self.loop_spec(seg.seq.tag)
        given = spec is not None
        spec = spec or LoopSpec()
        if callable(spec) and not isinstance(spec, LoopSpec):
            spec = spec(self, L)
        self._loop_enter(L, names)
        spec.check(L, I(0))
        if self.choose(2, "loop %s" % seg.seq.tag) == 0:
            i = self.fresh_int("i_" + seg.seq.tag)
            self.assume(z3.And(i >= 0, i < n))
            L.i = i
            self._havoc(L, names)
            spec.havoc_assume(L)
            self._covered(L)
            snap = self.snapshot()
            elem = seg.seq.at(self, z3.simplify(seg.off + i))
            L.elem = elem
            self.loops.append(L)
            try:
                body(elem, i)
            except BreakEx:
                self.loops.remove(L)
                self.loop_exits.add(key)
                if not given:
                    self._passed(L, seg, body, i, snap)
                return "break"
            except (ReturnEx, PyExc, GenBreak, GenReturn):
                self.loops.remove(L)
                self.loop_exits.add(key)
                if not given:
                    self._passed(L, seg, body, i, snap)
                raise
            self.loops.remove(L)
            self._loop_close(L)
            spec.check(L, i + 1)
            raise PathEnd()
        L.i = n
        self._havoc(L, names)
        spec.havoc_assume(L)
        self._covered(L)
        if not given and key in self.loop_exits:
            self._passed(L, seg, body, n, self.snapshot())
        return "done"

    def _passed(self, L, seg, body, n, snap):
        """No invariant was given for a loop that may end early.  If it changes
        nothing, then that the body came to its end for the elements before the
        n-th is known from running it: wherever such an element is looked at,
        the paths on which it leaves the loop are impossible."""
        if L.mods or any(((L.key, "local", nm), "same") in self.loop_drop for nm in L.names):
            self.imprecise = True
            return
        fr = L.frame
        frame_locals = dict(fr.locals)
        busy = []

        def fact(idx):
            if busy or self.imprecise:
                return
            idx = z3.simplify(idx)
            if not self.decide(z3.And(idx >= seg.off, idx < seg.off + n), "passed"):
                return
            saved, before, loops, self.loops = fr.locals, self.purity, self.loops, []
            fr.locals = dict(frame_locals)
            self.purity = self.next_oid
            busy.append(1)

            def once():
                body(seg.seq.at(self, idx), z3.simplify(idx - seg.off))
            try:
                self.with_snapshot(snap, once)
            except (BreakEx, ReturnEx, PyExc, GenBreak, GenReturn):
                raise PathEnd()
            except Unsupported:
                self.imprecise = True
            finally:
                fr.locals, self.purity, self.loops = saved, before, loops
                busy.pop()
        self.add_fact(seg.seq, fact)

    def _covered(self, L):
        """The invariant says nothing about the list a comprehension collects:
        then that is taken for what it is, a mapping of what is iterated over."""
        for key, oid in self.collecting:
            if ("content", oid) in L.mods and self.heap[oid].content is None:
                self.lazy_comps.add(key)
                raise Restart()

    def loop_spec(self, tag):
        if tag in self.spec.loops:
            return self.spec.loops[tag]
        return self.spec.loops.get(tag.split(".")[0])

    def _loop_enter(self, L, names):
        L.mods = self.loop_mods.setdefault(L.key, set())
        L.names = sorted(names)
        L.entry = self.snapshot()
        L.entry_locals = dict(L.frame.locals)

    def _havoc(self, L, names):
        """Forget everything the loop may have modified, except for the
        automatically inferred invariants (unchanged / +1 per iteration)."""
        for nm in L.names:
            if nm in L.entry_locals:
                v0 = L.entry_locals[nm]
                L.frame.locals[nm] = self._cand((L.key, "local", nm), v0, L.i)
            else:
                L.frame.locals.pop(nm, None)
                if L.frame.locals.get(nm) is None:
                    L.frame.locals[nm] = VPoison("local %s" % nm)
        for m in sorted(L.mods, key=str):
            if m[0] in ("attr", "content") and m[1] not in self.heap:
                continue
            if m[0] == "attr":
                if m[1] in self.heap and m[2] in L.entry["heap"][m[1]].attrs:
                    v0 = L.entry["heap"][m[1]].attrs[m[2]]
                    self.heap[m[1]].attrs[m[2]] = self._cand((L.key, "attr", m), v0, L.i)
                else:
                    self.heap[m[1]].attrs[m[2]] = VPoison("attribute %s" % m[2])
                for outer in self.loops:
                    self._note_outer(outer, m)
            elif m[0] == "content":
                self.heap[m[1]].content = None
                for outer in self.loops:
                    self._note_outer(outer, m)
            elif m[0] == "ghost":
                g = self.ghost.get(m[1])
                if isinstance(g, z3.ExprRef):
                    self.ghost[m[1]] = self.fresh("g_" + m[1], g.sort())
                else:
                    self.ghost[m[1]] = VPoison("ghost %s" % m[1])
                for outer in self.loops:
                    self._note_outer(outer, m)
            elif m[0] == "fam":
                # values of this attribute are unknown for every member
                self.famw[m[1]] = [w for w in self.famw.get(m[1], []) if w[1] != m[2]]
                L.data.setdefault("fam_havoc", []).append(m)
                for outer in self.loops:
                    self._note_outer(outer, m)
            elif m[0] == "global":
                v0 = L.entry["globals"].get((m[1], m[2]))
                self.globals[(m[1], m[2])] = self._cand((L.key, "global", m), v0, L.i) if v0 is not None else VPoison("global")

    def _note_outer(self, outer, m):
        if m[0] in ("attr", "content") and m[1] >= outer.entry["next_oid"]:
            return
        if m not in outer.mods:
            outer.mods.add(m)
            self.loop_mods.setdefault(outer.key, set()).add(m)
            raise Restart()

    def _cand(self, key, v0, i):
        """Value after i iterations under the strongest surviving candidate."""
        if (key, "same") not in self.loop_drop:
            return v0
        if isinstance(v0, VInt) and (key, "inc") not in self.loop_drop:
            return VInt(z3.simplify(v0.t + i))
        v = self.fresh_like(v0, "lv")
        if not isinstance(v, VPoison):
            self.havocked.add(v.t.decl().name())
        return v

    def _cand_close(self, key, v0, cur, i):
        if (key, "same") not in self.loop_drop:
            if not self._definitely_same(v0, cur):
                self.loop_drop.add((key, "same"))
                raise Restart()
        elif isinstance(v0, VInt) and (key, "inc") not in self.loop_drop:
            ok = isinstance(cur, VInt)
            if ok:
                g = z3.simplify(cur.t == v0.t + i + 1)
                ok = z3.is_true(g) or self.query(z3.Not(g))[0] == z3.unsat
            if not ok:
                self.loop_drop.add((key, "inc"))
                raise Restart()
        elif not isinstance(v0, VPoison) and type(cur) is not type(v0) and not isinstance(cur, VPoison):
            # the type changes: nothing is known after the loop
            if (key, "type") not in self.loop_drop:
                self.loop_drop.add((key, "type"))

    def _definitely_same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (VPoison, VLazy)) or isinstance(b, (VPoison, VLazy)):
            return isinstance(a, VLazy) and isinstance(b, VLazy) and a.name == b.name
        if type(a) is not type(b):
            return False
        if isinstance(a, VTuple) or isinstance(a, VGen) or isinstance(a, VCoro):
            return False
        t = z3.simplify(self.same(a, b))
        return z3.is_true(t) or (not z3.is_false(t) and self.query(z3.Not(t))[0] == z3.unsat)

    def _loop_close(self, L):
        for nm in L.names:
            if nm in L.entry_locals and nm in L.frame.locals:
                self._cand_close((L.key, "local", nm), L.entry_locals[nm], L.frame.locals[nm], L.i)
        for m in sorted(L.mods, key=str):
            if m[0] == "attr" and m[2] in L.entry["heap"][m[1]].attrs:
                cur = self.heap[m[1]].attrs.get(m[2], NONE)
                self._cand_close((L.key, "attr", m), L.entry["heap"][m[1]].attrs[m[2]], cur, L.i)
            elif m[0] == "global" and L.entry["globals"].get((m[1], m[2])) is not None:
                self._cand_close((L.key, "global", m), L.entry["globals"][(m[1], m[2])], self.globals[(m[1], m[2])], L.i)

    def exec_While(self, st, fr):
        names = stored_names(st.body) | stored_names([ast.Expr(st.test)])
        q = fr.func.qualname if fr.func else ""
        # plain unrolling when the test is decided by the current state
        spec = self.spec.whiles.get(q) or self.spec.whiles.get("*")
        if spec is None:
            conv = self._while_as_for(st, fr)
            if conv is not None:
                seg, var = conv
                return self._exec_while_indexed(st, fr, names, seg, var)
            spec = LoopSpec()
        if callable(spec) and not isinstance(spec, LoopSpec):
            spec = spec(self, None)
        key = ("while", q, len(self.loops))
        L = LoopCtx(self, fr, key)
        self._loop_enter(L, names)
        spec.check(L, I(0))
        body_branch = self.choose(2, "while L%d" % st.lineno) == 0
        i = self.fresh_int("i_while")
        self.assume(i >= 0)
        L.i = i
        self._havoc(L, names)
        spec.havoc_assume(L)
        if body_branch:
            self.loops.append(L)
            try:
                if not self.branch(self.eval(st.test, fr), "while test"):
                    raise PathEnd()
                try:
                    self.exec_block(st.body, fr)
                except ContinueEx:
                    pass
            except BreakEx:
                self.loops.remove(L)
                return
            except (ReturnEx, PyExc, GenBreak, GenReturn):
                self.loops.remove(L)
                raise
            self.loops.remove(L)
            self._loop_close(L)
            spec.check(L, i + 1)
            raise PathEnd()
        if self.branch(self.eval(st.test, fr), "while test"):
            raise PathEnd()
        self.exec_block(st.orelse, fr)

    def _while_as_for(self, st, fr):
        """`while v < len(X)` with v starting at 0: the rope X."""
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)
                and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.comparators[0], (ast.Call, ast.Name))):
            return None
        v = fr.locals.get(t.left.id)
        if not isinstance(v, VInt) or not z3.is_int_value(v.t) or v.t.as_long() != 0:
            return None
        hi = self.eval(t.comparators[0], fr)
        if not isinstance(hi, VInt) or z3.is_int_value(z3.simplify(hi.t)):
            return None
        for o in self.heap.values():
            if isinstance(o.content, Rope) and len(o.content.segs) == 1 and isinstance(o.content.segs[0], Chunk) \
               and z3.simplify(o.content.segs[0].n).eq(z3.simplify(hi.t)):
                return o.content.segs[0], t.left.id
        return None

    def _exec_while_indexed(self, st, fr, names, seg, var):
        """while v < len(X): ... with v = 0, v += 1: same rule as for v in
        range(len(X)); that v equals the iteration count is proved."""
        rng = self.models.index_seq(self, seg.seq, seg.n)

        def body(iv):
            if (("while-ix", fr.func.qualname, var), "same") in self.loop_drop:
                pass
            fr.locals[var] = iv
            if not self.branch(self.eval(st.test, fr), "while test"):
                raise PathEnd()
            try:
                self.exec_block(st.body, fr)
            except ContinueEx:
                pass
            self.prove(self.eq(fr.locals[var], VInt(iv.t + 1)), "while index advances by one")
            fr.locals[var] = VInt(z3.simplify(iv.t + 1))
        r = self.loop_rule(Chunk(rng), body, fr, names - {var}, "while")
        if r != "break":
            fr.locals[var] = VInt(seg.n)
            self.exec_block(st.orelse, fr)

    # ------------------------------------------------------ binding
    def bind_name(self, name, v, fr):
        if name in fr.globals_decl:
            self.note_write(("global", fr.module.name, name))
            self.globals[(fr.module.name, name)] = v
        elif name in fr.nonlocals:
            c = fr.closure
            while c is not None and name not in c.locals:
                c = c.closure
            if c is None:
                raise Unsupported("nonlocal %s" % name)
            if self.loops:
                raise Unsupported("nonlocal assignment inside a loop")
            c.locals[name] = v
        else:
            fr.locals[name] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.bind_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.models.setitem(self, self.eval(t.value, fr), self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in t.elts):
                items = self.models.iter_rope(self, v).concrete()
                k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_py("ValueError", "unpack")
                for e, x in zip(t.elts[:k], items[:k]):
                    self.assign(e, x, fr)
                self.assign(t.elts[k].value, self.new_list(items[k:len(items) - after]), fr)
                for e, x in zip(t.elts[k + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            items = self.models.unpack(self, v, len(t.elts))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    def lookup(self, name, fr):
        f = fr
        if name not in fr.globals_decl:
            while f is not None:
                if name in f.locals:
                    v = f.locals[name]
                    return v
                if f.is_class and f.cls is not None and name in f.cls.bindings:
                    return self.class_attr(f.cls, name)
                f = f.closure
        v = self.module_attr(fr.module.name, name, default=None)
        if v is not None:
            return v
        if hasattr(pybuiltins, name):
            if name in ("True", "False", "None"):
                return {"True": VBool(True), "False": VBool(False), "None": NONE}[name]
            return VExt("builtins." + name)
        if name == "__file__":
            return VStr(fr.module.path)
        if name == "__name__":
            return VStr(fr.module.name)
        self.raise_py("NameError", "name %r is not defined" % name)

    # ------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "eval_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def eval_Constant(self, e, fr):
        c = e.value
        if c is None:
            return NONE
        if isinstance(c, bool):
            return VBool(c)
        if isinstance(c, int):
            return VInt(c)
        if isinstance(c, str):
            return VStr(c)
        if isinstance(c, bytes):
            return VBytes(c)
        if c is Ellipsis:
            return VExt("builtins.Ellipsis")
        if isinstance(c, float):
            return VOpaque(z3.Const("float_%r" % c, U), types=["builtins.float"], label="float")
        raise Unsupported("constant %r" % (c,))

    def eval_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def eval_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def eval_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return VSlice(self.eval(s.lower, fr) if s.lower else NONE,
                          self.eval(s.upper, fr) if s.upper else NONE,
                          self.eval(s.step, fr) if s.step else NONE)
        return self.eval(s, fr)

    def eval_Subscript(self, e, fr):
        return self.models.getitem(self, self.eval(e.value, fr), self.eval_index(e.slice, fr))

    def eval_rope(self, elts, fr):
        rope = Rope()
        for x in elts:
            if isinstance(x, ast.Starred):
                rope = rope + self.models.iter_rope(self, self.force(self.eval(x.value, fr)))
            else:
                rope = rope.append(self.eval(x, fr))
        return rope

    def eval_List(self, e, fr):
        return self.new_list(self.eval_rope(e.elts, fr))

    def eval_Tuple(self, e, fr):
        return VTuple(self.eval_rope(e.elts, fr))

    def eval_Set(self, e, fr):
        return self.alloc(self.extclass("builtins.set"), self.eval_rope(e.elts, fr))

    def eval_Dict(self, e, fr):
        rep = DictRep()
        r = self.new_dict(rep)
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.models.dict_update(self, r, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                self.models.setitem(self, r, kk, self.eval(v, fr))
        return r

    def eval_IfExp(self, e, fr):
        if self.branch(self.eval(e.test, fr), "ifexp L%d" % e.lineno):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def eval_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, fr)
            t = self.branch(v, "boolop L%d" % e.lineno)
            if t != isand:
                return v
        return self.eval(e.values[-1], fr)

    def eval_UnaryOp(self, e, fr):
        v = self.force(self.eval(e.operand, fr))
        if isinstance(e.op, ast.Not):
            return VBool(z3.simplify(z3.Not(self.truthy(v))))
        if isinstance(v, VBool) and isinstance(e.op, (ast.USub, ast.UAdd)):
            v = VInt(z3.If(v.t, I(1), I(0)))
        if isinstance(e.op, ast.USub) and isinstance(v, VInt):
            return VInt(-v.t)
        if isinstance(e.op, ast.Invert) and isinstance(v, VInt):
            return VInt(-v.t - 1)
        d = {"USub": "__neg__", "Invert": "__invert__", "UAdd": "__pos__"}[type(e.op).__name__]
        if isinstance(v, (Ref, FRef)) and isinstance(v.cls, ClassInfo):
            hit = self.lookup_class(v.cls, d)
            if hit:
                return self.call(self.bind(hit[1], v, hit[0]), [], {})
        self.raise_py("TypeError", "bad operand for unary operator")

    def eval_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.models.binop(self, type(e.op).__name__, a, b)

    def eval_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        if len(e.ops) == 1:
            right = self.eval(e.comparators[0], fr)
            try:
                return VBool(z3.simplify(self.models.compare(self, type(e.ops[0]).__name__, left, right)))
            except self.models.ComparisonResult as c:
                return c.value
        res = z3.BoolVal(True)
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, fr)
            t = self.models.compare(self, type(op).__name__, left, right)
            res = z3.And(res, t)
            if not self.decide(t):
                return VBool(False)
            left = right
        return VBool(True)

    def eval_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and f.cls is None:
                f = f.closure
            first = f.func.node.args.args[0].arg
            return VSuper(f.cls, f.locals[first])
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "globals", "eval", "exec", "vars"):
            raise Unsupported("call of %s()" % e.func.id)
        f = self.eval(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.force(self.eval(x.value, fr))
                rope = self.models.iter_rope(self, v)
                if rope.is_concrete:
                    args += rope.concrete()
                else:
                    args.append(StarArg(rope))
            else:
                args.append(self.eval(x, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value, fr))
                rep = self.models.dict_rep(self, d)
                if rep.base is None and all(isinstance(kk, VStr) and z3.is_string_value(kk.t) for kk, _ in rep.over):
                    for kk, vv in rep.over:
                        kwargs[kk.t.as_string()] = vv
                else:
                    kwargs["**"] = rep
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        if isinstance(f, VExt) and f.name == "builtins.super":
            return VSuper(self.force(args[0]).info, args[1])
        try:
            return self.call(f, args, kwargs)
        except PyExc:
            raise

    def eval_Lambda(self, e, fr):
        return VFunc(e, fr.module, fr, self.nested_name("<lambda>", fr), None,
                     [self.eval(d, fr) for d in e.args.defaults], {})

    def eval_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(S(x.value))
            else:
                v = self.eval(x.value, fr)
                if x.format_spec is not None:
                    raise Unsupported("format spec")
                parts.append(self.models.to_str(self, v, "repr" if x.conversion == 114 else "str"))
        if not parts:
            return VStr("")
        return VStr(parts[0] if len(parts) == 1 else z3.Concat(*parts))

    def eval_Await(self, e, fr):
        return self.await_(self.eval(e.value, fr))

    def eval_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else NONE
        f = fr
        if f.on_yield is None:
            raise Unsupported("yield outside a generator run")
        return f.on_yield(v)

    def eval_YieldFrom(self, e, fr):
        it = self.eval(e.value, fr)
        self.iterate(it, lambda v: fr.on_yield(v), fr, set(), "yield from")
        return NONE

    def eval_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def eval_GeneratorExp(self, e, fr):
        def run(on_yield):
            self._comp(e.generators, lambda f2: on_yield(self.eval(e.elt, f2)), fr)
            return NONE
        g = VGen(run, "genexp")
        g2 = GenExp(g, e, fr, self)
        return g2

    def _comp(self, gens, emit, fr):
        sub = Frame(fr.module, fr.func, fr, fr.cls)
        sub.on_yield = fr.on_yield

        def level(k):
            if k == len(gens):
                emit(sub)
                return
            g = gens[k]
            it = self.eval(g.iter, sub if k else fr)

            def body(v):
                self.assign(g.target, v, sub)
                for c in g.ifs:
                    if not self.branch(self.eval(c, sub), "comp if"):
                        return
                level(k + 1)
            self.iterate(it, body, sub, stored_names([ast.Expr(g.target)]), "comp", bool(g.is_async))
        level(0)

    def comp_rope(self, e, fr):
        """Elements of a list comprehension / generator expression."""
        gens = e.generators
        if len(gens) == 1:
            it = self.force(self.eval(gens[0].iter, fr))
            rope = None
            if not isinstance(it, VGen) and not (self.spec and self.spec.iterate):
                rope = self.models.iter_rope(self, it)
            if rope is not None and not rope.is_concrete:
                if id(e) in self.lazy_comps or all(isinstance(s, Elems) or self.loop_spec(s.seq.tag) is None for s in rope.segs):
                    return self.models.lazy_comp(self, e, fr, rope)
        out = self.new_list()

        def emit(f2):
            v = self.eval(e.elt, f2)
            self.set_content(out, self.heap[out.oid].content.append(v))
        self.collecting.append((id(e), out.oid))
        try:
            self._comp(gens, emit, fr)
        finally:
            self.collecting.pop()
        return self.heap[out.oid].content

    def eval_ListComp(self, e, fr):
        return self.new_list(self.comp_rope(e, fr))

    def eval_SetComp(self, e, fr):
        return self.alloc(self.extclass("builtins.set"), self.comp_rope(e, fr))

    def eval_DictComp(self, e, fr):
        out = self.new_dict()

        def emit(f2):
            k = self.eval(e.key, f2)
            self.models.setitem(self, out, k, self.eval(e.value, f2))
        self._comp(e.generators, emit, fr)
        return out


class GenExp(VGen):
    __slots__ = ("node", "frame", "eng")

    def __init__(self, g, node, frame, eng):
        VGen.__init__(self, g.run, "genexp")
        self.node = node
        self.frame = frame
        self.eng = eng


class GenBreak(Exception):
    def __init__(self, gen):
        self.gen = gen


class GenReturn(Exception):
    def __init__(self, gen, ret):
        self.gen = gen
        self.ret = ret


class StarArg(object):
    def __init__(self, rope):
        self.rope = rope


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    cached = getattr(node, "_pyvc_gen", None)
    if cached is None:
        cached = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                cached = True
                break
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        node._pyvc_gen = cached
    return cached


def stored_names(body):
    out = set()
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])
        stack.extend(ast.iter_child_nodes(n))
    return out


class Spec(object):
    """Everything a property file declares for the engine."""

    def __init__(self):
        self.contracts = {}      # qualname -> handler(eng, *args, **kwargs)
        self.ext = {}            # external dotted name -> handler
        self.ext_attrs = {}      # external dotted name -> V thunk
        self.ext_setattr = {}
        self.ext_methods = {}    # (class qualname, method) -> handler(eng, self, ...)
        self.loops = {}          # sequence tag -> LoopSpec or factory
        self.whiles = {}         # function qualname -> LoopSpec or factory
        self.globals = {}        # 'module.name' -> thunk(eng) -> V
        self.on_await = None
        self.iterate = None
        self.may_raise = {}      # external name -> exception class name

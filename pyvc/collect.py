"""Loops that collect a list.

    X = []
    for T in S:                          the comprehension
        if A: continue                       [E for T in S if not A if C]
        v = ...
        if C: X.append(E)

find_collectors marks such loops with the comprehension they are equivalent
to: X is a new list, the body only appends to it, at most once, as its last
act, and its local names are not used elsewhere.  The engine still checks that
the condition and the element have no side effects."""
import ast
import copy


def find_collectors(tree):
    for fn in ast.walk(tree):
        if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for node in ast.walk(fn):
                for field in ("body", "orelse", "finalbody"):
                    block = getattr(node, field, None)
                    if isinstance(block, list):
                        _block(fn, block)


def _names(node, name=None):
    return [n for n in ast.walk(node) if isinstance(n, ast.Name) and (name is None or n.id == name)]


def _block(fn, block):
    for k, st in enumerate(block):
        if not isinstance(st, ast.For) or st.orelse:
            continue
        X = _appended(st)
        if X is None:
            continue
        # X = [] before it in the same block, and not used in between
        for j in range(k - 1, -1, -1):
            b = block[j]
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and b.targets[0].id == X \
               and isinstance(b.value, ast.List) and not b.value.elts:
                break
            if _names(b, X):
                j = -1
                break
        else:
            continue
        if j < 0:
            continue
        c = _build(st.body, X)
        if c is None:
            continue
        conds, elt, local = c
        if any(_names(x, X) for x in conds + [elt, st.iter, st.target]):
            continue
        local = set(local) | {n.id for n in _names(st.target)}
        inside = {id(n) for n in ast.walk(st)}
        if any(n.id in local and id(n) not in inside for n in _names(fn)):
            continue
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)):
            continue
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda)) for x in conds + [elt] for n in ast.walk(x)):
            continue
        comp = ast.ListComp(elt=elt, generators=[ast.comprehension(target=st.target, iter=st.iter, ifs=conds, is_async=0)])
        st.collects = (X, ast.fix_missing_locations(ast.copy_location(comp, st)))


def _appended(st):
    for n in ast.walk(st):
        if _is_append(n):
            return n.value.func.value.id
    return None


def _is_append(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == "append" \
        and isinstance(n.value.func.value, ast.Name) and len(n.value.args) == 1 and not n.value.keywords and not isinstance(n.value.args[0], ast.Starred)


class _Subst(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.env:
            return copy.deepcopy(self.env[n.id])
        return n


def _build(body, X):
    """(conditions, element, local names), or None"""
    env, conds, local = {}, [], []

    def sub(x):
        return _Subst(env).visit(copy.deepcopy(x))
    for k, st in enumerate(body):
        last = k == len(body) - 1
        if isinstance(st, ast.If) and not st.orelse and len(st.body) == 1 and isinstance(st.body[0], ast.Continue):
            conds.append(ast.UnaryOp(op=ast.Not(), operand=sub(st.test)))
        elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            name = st.targets[0].id
            # substituting is evaluating later, perhaps more than once
            if any(isinstance(n, (ast.Call, ast.Await, ast.Yield, ast.Lambda)) for n in ast.walk(st.value)) and len([n for s in body[k + 1:] for n in _names(s, name)]) != 1:
                return None
            env[name] = sub(st.value)
            local.append(name)
        elif isinstance(st, ast.Pass) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            continue
        elif not last:
            return None
        elif _is_append(st) and st.value.func.value.id == X:
            return conds, sub(st.value.args[0]), local
        elif isinstance(st, ast.If):
            a = _build(st.body, X)
            if a is None:
                return None
            if not st.orelse:
                return conds + [sub(st.test)] + [sub(c) for c in a[0]], sub(a[1]), local + a[2]
            b = _build(st.orelse, X)
            if b is None or a[0] or b[0]:
                return None
            return conds, ast.IfExp(test=sub(st.test), body=sub(a[1]), orelse=sub(b[1])), local + a[2] + b[2]
        else:
            return None
    return None

"""AST instrumentation of the real source, applied at import time to the modules a harness encodes.

Only operations that CPython resolves without asking the operands are redirected: calls of builtins, `in`,
subscripts, dict/set displays, f-strings, conditional expressions.  Everything else is ordinary Python running
over the symbolic values.
"""

from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("SYMEX_REPO", "/repo")

_NOCALL = {"super", "locals", "globals", "eval", "exec", "vars", "dir", "isinstance", "len", "print"}


def _n(name):
    return ast.Name(id=name, ctx=ast.Load())


def _call(name, *args):
    return ast.Call(func=_n(name), args=list(args), keywords=[])


def _lam(e):
    return ast.Lambda(
        args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e
    )


_PURE = (
    ast.Name,
    ast.Constant,
    ast.BinOp,
    ast.UnaryOp,
    ast.Compare,
    ast.BoolOp,
    ast.Subscript,
    ast.Attribute,
    ast.IfExp,
    ast.operator,
    ast.unaryop,
    ast.cmpop,
    ast.boolop,
    ast.expr_context,
    ast.Tuple,
    ast.Slice,
)
_PURE_CALLS = {"len", "int", "abs", "min", "max"}


def pure(e):
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            if not (isinstance(x.func, ast.Name) and x.func.id in _PURE_CALLS and not x.keywords):
                return False
        elif not isinstance(x, _PURE):
            return False
    return True


def _simple_assign(s):
    """(target, value expr) of a simple pure assignment statement, or None."""
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
        t, v = s.targets[0], s.value
    elif isinstance(s, ast.AugAssign):
        t = s.target
        load = _as_load(t)
        if load is None:
            return None
        v = ast.BinOp(left=load, op=s.op, right=s.value)
    else:
        return None
    if isinstance(t, ast.Name):
        pass
    elif isinstance(t, ast.Subscript):
        if not (isinstance(t.value, ast.Name) and pure(t.slice) and not isinstance(t.slice, ast.Slice)):
            return None
    else:
        return None
    if not pure(v):
        return None
    return t, v


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return None


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.infn = 0
        self.tmp = 0

    # -------------------------------------------------- scopes
    def _fn(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self._defaults(node.args)
        self.infn += 1
        node.body = self._body(node.body)
        self.infn -= 1
        k = 0
        if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            k = 1
        name = self.mod + ":" + ".".join(self.stack)
        node.body.insert(k, ast.Expr(_call("_sx_fn", ast.Constant(name))))
        self.stack.pop()
        return node

    def _body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def _defaults(self, a):
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [d if d is None else self.visit(d) for d in a.kw_defaults]

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        fn, self.infn = self.infn, 0
        node.body = self._body(node.body)
        self.infn = fn
        self.stack.pop()
        return node

    def visit_Lambda(self, node):
        self._defaults(node.args)
        self.infn += 1
        node.body = self.visit(node.body)
        self.infn -= 1
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    # -------------------------------------------------- statements
    def visit_If(self, node):
        merged = self._merge_if(node) if self.infn else None
        node.test = self.visit(node.test)
        node.body = self._body(node.body)
        node.orelse = self._body(node.orelse)
        if merged is None:
            return node
        self.tmp += 1
        t = f"_sx_t{self.tmp}"
        seq = []
        for tgt, val, positive, other in merged:
            keep = _as_load(tgt) if other is None else other
            a, b = (val, keep) if positive else (keep, val)
            value = _call("_sx_ifmerge", _n(t), _lam(self.visit(a)), _lam(self.visit(b)))
            if isinstance(tgt, ast.Subscript):
                import copy

                seq.append(
                    ast.Expr(
                        _call(
                            "_sx_setitem", value, self.visit(copy.deepcopy(tgt.value)), self.visit(copy.deepcopy(tgt.slice))
                        )
                    )
                )
            else:
                seq.append(ast.Assign(targets=[tgt], value=value))
        out = [
            ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=node.test),
            ast.If(
                test=_call("_sx_issym", _n(t)),
                body=seq,
                orelse=[ast.If(test=_n(t), body=node.body, orelse=node.orelse)],
            ),
        ]
        for o in out:
            ast.copy_location(o, node)
        return out

    def _merge_if(self, node):
        import copy

        sides = []
        for stmts in (node.body, node.orelse):
            sides.append([])
            for s in stmts:
                if isinstance(s, ast.Pass):
                    continue
                sa = _simple_assign(copy.deepcopy(s))
                if sa is None:
                    return None
                sides[-1].append(sa)
        # assignments of both sides to one name, in the order of the else side, become one merged assignment
        body, other = sides
        out, j = [], 0
        for tgt, val in body:
            if j < len(other) and isinstance(tgt, ast.Name) and isinstance(other[j][0], ast.Name) and tgt.id == other[j][0].id:
                out.append((tgt, val, True, other[j][1]))
                j += 1
            else:
                out.append((tgt, val, True, None))
        for tgt, val in other[j:]:
            out.append((tgt, val, False, None))
        return out or None

    # -------------------------------------------------- expressions
    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in _NOCALL:
            self.generic_visit(node)
            return node
        self.generic_visit(node)
        return ast.copy_location(
            ast.Call(func=_n("_sx_call"), args=[node.func] + node.args, keywords=node.keywords), node
        )

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            self.generic_visit(node)
            if isinstance(node.ops[0], ast.In):
                return ast.copy_location(_call("_sx_in", node.left, node.comparators[0]), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(_call("_sx_not_in", node.left, node.comparators[0]), node)
            return node
        if self.infn and pure(node) and not any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            import copy

            items, left = [], node.left
            for o, c in zip(node.ops, node.comparators):
                items.append(
                    _lam(self.visit(ast.Compare(left=copy.deepcopy(left), ops=[o], comparators=[copy.deepcopy(c)])))
                )
                left = c
            return ast.copy_location(_call("_sx_and", *items), node)
        self.generic_visit(node)
        return node

    def visit_BoolOp(self, node):
        p = self.infn and all(pure(v) for v in node.values)
        self.generic_visit(node)
        if not p:
            return node
        f = "_sx_and" if isinstance(node.op, ast.And) else "_sx_or"
        return ast.copy_location(_call(f, *[_lam(v) for v in node.values]), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call("_sx_not", node.operand), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, ast.Slice) and self.infn:
            if isinstance(node.slice, ast.Constant):
                return node
            return ast.copy_location(_call("_sx_getitem", node.value, node.slice), node)
        return node

    def visit_AugAssign(self, node):
        t = node.target
        if (
            self.infn
            and isinstance(t, ast.Subscript)
            and isinstance(t.value, ast.Name)
            and not isinstance(t.slice, (ast.Slice, ast.Constant))
            and pure(t.slice)
        ):
            import copy

            load = ast.Subscript(value=copy.deepcopy(t.value), slice=copy.deepcopy(t.slice), ctx=ast.Load())
            self.tmp += 1
            tmp = f"_sx_a{self.tmp}"
            # in-place operators of the element keep their meaning through the temporary
            out = [
                ast.Assign(targets=[ast.Name(id=tmp, ctx=ast.Store())], value=self.visit(load)),
                ast.AugAssign(target=ast.Name(id=tmp, ctx=ast.Store()), op=node.op, value=self.visit(node.value)),
                ast.Expr(_call("_sx_setitem", _n(tmp), self.visit(t.value), self.visit(t.slice))),
            ]
            for o in out:
                ast.copy_location(o, node)
            return out
        node.value = self.visit(node.value)
        return node

    def visit_Assign(self, node):
        node.value = self.visit(node.value)
        if len(node.targets) == 1 and self.infn:
            t = node.targets[0]
            if isinstance(t, ast.Subscript) and not isinstance(t.slice, (ast.Slice, ast.Constant)):
                return ast.copy_location(
                    ast.Expr(_call("_sx_setitem", node.value, self.visit(t.value), self.visit(t.slice))), node
                )
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            parts, cur = [], []
            for k, v in zip(node.keys, node.values):
                if k is None:
                    if cur:
                        parts.append(ast.List(elts=cur, ctx=ast.Load()))
                        cur = []
                    parts.append(v)
                else:
                    cur.append(ast.Tuple(elts=[k, v], ctx=ast.Load()))
            if cur:
                parts.append(ast.List(elts=cur, ctx=ast.Load()))
            return ast.copy_location(_call("_sx_dictmerge", *parts), node)
        items = [ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return ast.copy_location(_call("_sx_mkdict", ast.List(elts=items, ctx=ast.Load())), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("_sx_mkset", ast.List(elts=node.elts, ctx=ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        elt = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return ast.copy_location(_call("_sx_mkdict", ast.ListComp(elt=elt, generators=node.generators)), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("_sx_mkset", ast.ListComp(elt=node.elt, generators=node.generators)), node)

    def visit_IfExp(self, node):
        p = self.infn and pure(node.body) and pure(node.orelse)
        self.generic_visit(node)
        if not p:
            return node
        return ast.copy_location(_call("_sx_ifmerge", node.test, _lam(node.body), _lam(node.orelse)), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                spec = ast.Constant("") if spec is None else self.visit(spec)
                parts.append(_call("_sx_fmt", self.visit(v.value), ast.Constant(v.conversion), spec))
        return ast.copy_location(_call("_sx_fstr", ast.List(elts=parts, ctx=ast.Load())), node)

    # patterns of match statements stay as they are
    def visit_match_case(self, node):
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = self._body(node.body)
        return node


def instrument_source(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True, optimize=0)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return instrument_source(self.get_data(path), fullname, path)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, accept):
        self.accept = accept

    def find_spec(self, fullname, path, target=None):
        if not self.accept(fullname):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install(patterns):
    """Instrument the modules whose name matches one of the patterns (exact, or prefix ending in '*')."""

    def accept(name):
        for p in patterns:
            if p.endswith("*"):
                if name.startswith(p[:-1]):
                    return True
            elif name == p:
                return True
        return False

    f = Finder(accept)
    sys.meta_path.insert(0, f)
    return f

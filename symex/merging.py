"""Path joining: explore a pure function of the code on its own and return one value for all its paths."""

from __future__ import annotations

import functools

import z3

from symex import core, values
from symex.values import SymBool, SymBytes, SymInt, SymStr


class NoMerge(Exception):
    pass


def merge_values(c, a, b):
    """c ? a : b structurally, or NoMerge."""
    if a is b:
        return a
    if type(a) in (list, tuple) and type(b) is type(a) and len(a) == len(b):
        return type(a)(merge_values(c, x, y) for x, y in zip(a, b))
    ea, eb = values._elems(a), values._elems(b)
    if ea is not None and eb is not None:
        if len(ea) != len(eb):
            raise NoMerge
        out = [merge_values(c, x, y) for x, y in zip(ea, eb)]
        mut = isinstance(a, bytearray)
        if not mut and all(type(x) is int for x in out):
            return bytes(out)
        return SymBytes(out, mut)
    if isinstance(a, str) and isinstance(b, str):
        ca, cb = values._codes(a), values._codes(b)
        if len(ca) != len(cb):
            raise NoMerge
        return values.mkstr([merge_values(c, x, y) for x, y in zip(ca, cb)])
    r = values.ite(SymBool(c), a, b)
    if r is not None:
        return r
    if type(a) is type(b) and type(a) not in values._SYMS:
        try:
            if bool(a == b):
                return a
        except Exception:
            pass
    raise NoMerge


def merged(f):
    @functools.wraps(f)
    def g(*a, **k):
        if not (values.has_sym(list(a)) or values.has_sym(list(k.values()))):
            return f(*a, **k)
        return run(lambda: f(*a, **k))

    g.__wrapped_original__ = f
    return g


def run(thunk):
    e = core.engine()
    saved = (e.prefix, e.pos, e.taken, e.worklist, e.pc, e.known, e.last_model)
    outer = e.__dict__.get("scope", ())
    solver = e._solver()
    base_n = len(e.pc)
    e.scope = outer + (tuple(e.taken), e.fresh)
    base_fresh = e.fresh
    stack = [[]]
    results = []
    max_fresh = base_fresh
    try:
        while stack:
            e.prefix, e.pos, e.taken = list(stack.pop()), 0, []
            e.worklist = stack
            e.pc = list(saved[4])
            e.known = dict(saved[5])
            e.fresh = base_fresh
            e.last_model = saved[6]
            solver.push()
            e.solver, e.solver_n = solver, base_n
            try:
                e.check_time()
                r = ("ok", thunk())
            except core.Infeasible:
                r = None
            except Exception as x:
                r = ("exc", x)
            finally:
                solver.pop()
                e.solver_n = base_n
                max_fresh = max(max_fresh, e.fresh)
            if r is not None:
                extra = e.pc[base_n:]
                cond = z3.And(*extra) if len(extra) > 1 else (extra[0] if extra else z3.BoolVal(True))
                results.append((r, cond))
    finally:
        e.prefix, e.pos, e.taken, e.worklist, e.pc, e.known, e.last_model = saved
        e.solver, e.solver_n = solver, base_n
        e.scope = outer
        e.fresh = max_fresh
    oks = [(v, c) for (k, v), c in results if k == "ok"]
    for (k, v), c in results:
        if k == "exc" and e.decide(c):
            raise v
    if not oks:
        raise core.Infeasible()
    # join what can be joined, fork over the rest
    groups = []
    for v, c in oks:
        for g in groups:
            try:
                g[0] = merge_values(c, v, g[0])
                g[1].append(c)
                break
            except NoMerge:
                continue
        else:
            groups.append([v, [c]])
    for v, cs in groups[:-1]:
        if e.decide(z3.Or(*cs) if len(cs) > 1 else cs[0]):
            return v
    return groups[-1][0]

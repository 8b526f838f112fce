"""Path exploration and the solver interface.

A *path* is one execution of a harness over the instrumented real code.  Whenever the code needs the truth of
a symbolic condition (`SymBool.__bool__`), `decide` asks the solver which outcomes are feasible under the path
condition; if both are, one is followed and the other is queued.  Paths are re-executed from the start with
the recorded decisions, so no state has to be copied.
"""

from __future__ import annotations

import time

import z3

z3.set_param("smt.random_seed", 1)
z3.set_param("sat.random_seed", 1)


class PathEnd(BaseException):
    """Base of the control-flow exceptions of the engine (never caught by `except Exception`)."""


class Infeasible(PathEnd):
    """The path condition became unsatisfiable (an assumption does not hold here)."""


class Unsupported(PathEnd):
    """The engine cannot go on precisely on this path."""


class OutOfTime(PathEnd):
    """The time budget of the case ran out."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.infeasible = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.decisions = 0


_VARS = {}  # ast id -> frozenset of ids of uninterpreted constants, or None when there are too many
_KEEP = []  # keeps the memoised terms alive, so that ids are not reused


def _raw(name):
    """The C function behind a z3core wrapper (without its per-call error check)."""
    return getattr(z3.z3core, name).__defaults__[0].f


_FNS = [_raw("Z3_" + n) for n in ("get_ast_id", "get_ast_kind", "get_app_num_args", "get_app_arg", "get_app_decl", "get_decl_kind")]
_CTX = z3.main_ctx().ref()
_EMPTY = frozenset()
MAX_VARS = 600


def variables(t):
    """Ids of the uninterpreted constants of t, or None when there are too many of them."""
    root = t.get_id()
    r = _VARS.get(root, 0)
    if r != 0:
        return r
    get_id, kind, nargs, arg, decl, dkind = _FNS
    memo, ctx = _VARS, _CTX
    _KEEP.append(t)
    todo = [(t.as_ast(), root, None)]
    while todo:
        x, i, ch = todo.pop()
        if i in memo:
            continue
        if ch is None:
            k = kind(ctx, x)
            n = nargs(ctx, x) if k == z3.Z3_APP_AST else 0
            if n == 0:
                if k == z3.Z3_APP_AST and dkind(ctx, decl(ctx, x)) == z3.Z3_OP_UNINTERPRETED:
                    memo[i] = frozenset((i,))
                else:
                    memo[i] = _EMPTY if k in (z3.Z3_APP_AST, z3.Z3_NUMERAL_AST) else None
                continue
            ch = []
            pend = []
            for j in range(n):
                c = arg(ctx, x, j)
                ci = get_id(ctx, c)
                ch.append(ci)
                if ci not in memo:
                    pend.append((c, ci, None))
            if pend:
                todo.append((x, i, ch))
                todo.extend(pend)
                continue
        out = _EMPTY
        for ci in ch:
            m = memo[ci]
            if m is None:
                out = None
                break
            if m is not out and m:
                out = (out | m) if out else m
        if out is not None and len(out) > MAX_VARS:
            out = None
        memo[i] = out
    return memo[root]


class Engine:
    """One exploration of one harness case."""

    def __init__(self, deadline, query_ms=20000, prove_ms=120000, max_paths=100000, logic=None):
        self.deadline = deadline
        self.query_ms = query_ms
        self.prove_ms = prove_ms
        self.max_paths = max_paths
        self.logic = logic
        self.stats = Stats()
        self.worklist = [[]]
        self.incomplete = []  # reasons why the exploration is not exhaustive
        self.functions = set()
        self.reset_path([])

    # ---------------------------------------------------------------- paths
    def reset_path(self, prefix):
        self.prefix = list(prefix)
        self.taken = []
        self.pos = 0
        self.pc = []
        self.known = {}
        self.keep = []
        self.names = {}
        self.inputs = {}
        self.fresh = 0
        self.solver = None
        self.solver_n = 0
        self.last_model = None
        self.path_notes = []
        self.concretised = False
        self.indexed = 0
        self.by_var = {}
        self.vars_of = []
        self.large = 0

    def check_time(self):
        if time.monotonic() > self.deadline:
            raise OutOfTime()

    def note_incomplete(self, why):
        if why not in self.incomplete:
            self.incomplete.append(why)

    def _solver(self):
        if self.solver is None:
            self.solver = z3.SolverFor(self.logic) if self.logic else z3.Solver()
            self.solver_n = 0
        while self.solver_n < len(self.pc):
            self.solver.add(self.pc[self.solver_n])
            self.solver_n += 1
        return self.solver

    def _check(self, solver, ms, *assumptions):
        left = self.deadline - time.monotonic()
        if left <= 0:
            raise OutOfTime()
        solver.set("timeout", max(1, int(min(ms, left * 1000))))
        t0 = time.monotonic()
        try:
            r = solver.check(*assumptions)
        except z3.Z3Exception:
            r = z3.unknown
        self.stats.solver_s += time.monotonic() - t0
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r

    # ---------------------------------------------------------------- independence slicing
    def slice(self, cond):
        """(constraints of the path condition connected to cond, their variables), or None if too large.

        The path condition is satisfiable, so the constraints that share no variable (transitively) with cond
        cannot change the answer."""
        vs = variables(cond)
        if vs is None:
            return None
        # re-index when the path condition was rolled back (path joining)
        if self.indexed > len(self.pc) or (self.indexed and self.vars_of[self.indexed - 1][0] != self.pc[self.indexed - 1].get_id()):
            k = 0
            while k < min(self.indexed, len(self.pc)) and self.vars_of[k][0] == self.pc[k].get_id():
                k += 1
            for i in range(k, self.indexed):
                for v in self.vars_of[i][1] or ():
                    self.by_var[v] = [x for x in self.by_var[v] if x < k]
            self.vars_of = self.vars_of[:k]
            self.indexed = k
            self.large = sum(1 for x in self.vars_of if x[1] is None)
        while self.indexed < len(self.pc):
            c = self.pc[self.indexed]
            cv = variables(c)
            self.vars_of.append((c.get_id(), cv))
            self.large += cv is None
            for v in cv or ():
                self.by_var.setdefault(v, []).append(self.indexed)
            self.indexed += 1
        seen, todo, out = set(vs), list(vs), set()
        if self.large:
            return None
        while todo:
            v = todo.pop()
            for i in self.by_var.get(v, ()):
                if i not in out:
                    out.add(i)
                    for w in self.vars_of[i][1]:
                        if w not in seen:
                            seen.add(w)
                            todo.append(w)
        if len(out) > 0.7 * len(self.pc) and len(out) > 20:
            return None
        return [self.pc[i] for i in sorted(out)]

    def query(self, cond, ms, want_model=False):
        """(answer, model or None) of path condition and cond."""
        sl = self.slice(cond) if len(self.pc) > 8 else None
        if sl is None:
            s = self._solver()
            r = self._check(s, ms, cond)
            return r, (s.model() if r == z3.sat else None)
        s = z3.SolverFor(self.logic) if self.logic else z3.Solver()
        for c in sl:
            s.add(c)
        s.add(cond)
        r = self._check(s, ms)
        if r != z3.sat or not want_model:
            return r, None
        m = s.model()
        full = self._solver()
        eqs = [d() == m[d] for d in m.decls() if d.arity() == 0]
        if self._check(full, ms, cond, *eqs) == z3.sat:
            return r, full.model()
        return r, None

    def feasible(self, cond):
        """sat / unsat / unknown of path condition and cond."""
        # quick test against the last model
        if self.last_model is not None:
            v = self.last_model.eval(cond, model_completion=True)
            if z3.is_true(v):
                return z3.sat
        r, m = self.query(cond, self.query_ms)
        if m is not None:
            self.last_model = m
        return r

    def add(self, cond):
        self.pc.append(cond)
        if self.last_model is not None:
            if not z3.is_true(self.last_model.eval(cond, model_completion=True)):
                self.last_model = None

    def decide(self, cond):
        """Truth of a z3 Bool on this path (forks)."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = self.known.get(cond.get_id())
        if k is not None:
            return k
        self.check_time()
        neg = z3.Not(cond)
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(v)
            self._learn(cond, neg, v)
            return v
        self.stats.decisions += 1
        ft = self.feasible(cond)
        if ft == z3.unsat:
            v = False
        else:
            ff = self.feasible(neg)
            if ff == z3.unsat:
                v = True
            else:
                v = True
                if ft == z3.unknown or ff == z3.unknown:
                    self.note_incomplete("a branch feasibility query was undecided")
                self.worklist.append(self.taken + [False])
        self.pos += 1
        self.prefix.append(v)
        self.taken.append(v)
        self._learn(cond, neg, v)
        return v

    def _learn(self, cond, neg, v):
        c = cond if v else neg
        ns = z3.simplify(neg)
        self.keep.append((cond, ns))
        self.known[cond.get_id()] = v
        self.known[ns.get_id()] = not v
        self.add(c)

    def assume(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        if self.pos >= len(self.prefix) and self.feasible(cond) == z3.unsat:
            raise Infeasible()
        self.add(cond)

    def declare(self, cond):
        """Range constraint of a fresh input: always satisfiable."""
        self.pc.append(cond)
        self.last_model = None

    def is_forced(self, cond):
        """True if pc implies cond, without forking; None if not known."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return None

    # ---------------------------------------------------------------- proof obligations
    def refute(self, cond):
        """Look for values with pc and not cond. Returns (verdict, model)."""
        if z3.is_and(cond):
            parts, todo = [], [cond]
            while todo:
                x = todo.pop()
                if z3.is_and(x):
                    todo.extend(reversed(x.children()))
                else:
                    parts.append(x)
            if len(parts) > 8:
                res = "holds", None
                for i in range(0, len(parts), 8):
                    r = self.refute(z3.And(*parts[i : i + 8]))
                    if r[0] == "fails":
                        return r
                    if r[0] == "unknown":
                        res = r
                return res
        self.stats.obligations += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.discharged += 1
            self.stats.trivial += 1
            return "holds", None
        neg = z3.Not(cond)
        if self.last_model is not None and z3.is_true(self.last_model.eval(neg, model_completion=True)):
            self.stats.queries += 1
            self.stats.sat += 1
            return "fails", self.last_model
        r, m = self.query(neg, min(self.prove_ms, 10000), want_model=True)
        if r == z3.sat and m is not None:
            return "fails", m
        if r == z3.unsat:
            self.stats.discharged += 1
            return "holds", None
        # one-shot solver with preprocessing
        s2 = z3.SolverFor("QF_BV") if not self.logic else z3.SolverFor(self.logic)
        for c in self.slice(neg) or self.pc:
            s2.add(c)
        s2.add(neg)
        r = self._check(s2, self.prove_ms)
        if r == z3.sat:
            m = s2.model()
            full = self._solver()
            eqs = [d() == m[d] for d in m.decls() if d.arity() == 0]
            if self._check(full, self.prove_ms, neg, *eqs) == z3.sat:
                return "fails", full.model()
            return "unknown", None
        if r == z3.unsat:
            self.stats.discharged += 1
            return "holds", None
        return "unknown", None

    def model(self):
        """A model of the current path condition (or None)."""
        if self.last_model is not None:
            return self.last_model
        s = self._solver()
        r = self._check(s, self.query_ms)
        if r == z3.sat:
            self.last_model = s.model()
            return self.last_model
        return None


E: Engine | None = None


def engine() -> Engine:
    if E is None:
        raise RuntimeError("no symbolic execution is active")
    return E


def set_engine(e):
    global E
    E = e

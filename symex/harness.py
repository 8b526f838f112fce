"""Harness API.  A harness is an ordinary function `def name(h): ...` driving the real code.

The same function runs in two modes:
  * symbolic: inputs are solver variables, `h.check` is a proof obligation over every path;
  * concrete: inputs come from a recorded assignment and the *uninstrumented* code of /repo is executed.
"""

from __future__ import annotations

import contextlib
import hashlib
import importlib
import time
import traceback

CASES = {}


class Case:
    def __init__(self, prop, name, fn, modules, params, tiers, budget, bound, merge_note, max_paths, logic):
        self.prop, self.name, self.fn, self.modules, self.params = prop, name, fn, tuple(modules), params
        self.tiers, self.budget, self.bound, self.max_paths, self.logic = tiers, budget, bound, max_paths, logic


def harness(prop, modules=(), cases=None, tiers=("quick", "thorough"), budget=None, bound="", max_paths=20000, logic=None):
    """Register a harness.  `cases` maps a suffix to keyword parameters (optionally with _tiers/_budget)."""

    def deco(fn):
        for suffix, params in (cases or {"": {}}).items():
            params = dict(params)
            t = params.pop("_tiers", tiers)
            b = params.pop("_budget", budget)
            m = params.pop("_modules", modules)
            name = fn.__name__ + (("/" + suffix) if suffix else "")
            CASES.setdefault(prop, []).append(
                Case(prop, name, fn, m, params, t, b, bound or (fn.__doc__ or "").strip(), "", max_paths, logic)
            )
        return fn

    return deco


class Attempt:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


class Base:
    """Parts shared by both modes."""

    symbolic = False

    def __init__(self):
        self.observed = []
        self.undo = []
        self._ufs = {}

    def module(self, name):
        return importlib.import_module(name)

    def attempt(self, f, *a, allowed=(ValueError,), **k):
        """Call f; an exception in `allowed` is an outcome, any other is an error of the code under test."""
        if "Exception" in allowed:
            allowed = (Exception,)
        try:
            return Attempt(f(*a, **k))
        except allowed as e:
            return Attempt(exc=e)

    def patch(self, obj, name, value):
        """Environment stub, undone after the path.  A missing name is an error of the harness binding."""
        old = obj.__dict__[name] if name in getattr(obj, "__dict__", {}) else getattr(obj, name)
        self.undo.append((obj, name, old))
        setattr(obj, name, value)

    def patch_all(self, names, value, modules):
        for m in modules:
            for n in names:
                if hasattr(m, n):
                    self.patch(m, n, value)

    def mkbytes(self, items):
        """bytes of (symbolic) byte values."""
        items = list(items)
        if all(type(x) is int for x in items):
            return bytes(items)
        from symex import values

        return values.SymBytes(items)

    def cleanup(self):
        while self.undo:
            obj, name, old = self.undo.pop()
            setattr(obj, name, old)

    def byteslist(self, name, n, length):
        return [self.bytes(f"{name}{i}", length) for i in range(n)]

    def uf(self, name, out_len, injective=False):
        return self.xof(name, injective=injective, fixed=out_len)


class Violation(Exception):
    pass


class Skip(Exception):
    """The concrete inputs do not satisfy an assumption."""


class Concrete(Base):
    """Replay of a recorded assignment on the plain code."""

    def __init__(self, inputs, ufs=None, listed=()):
        super().__init__()
        self.inputs = inputs
        self.tables = {}
        self.failed = []
        self.known_failed = []
        self.listed = set(listed)
        for name, entries in (ufs or {}).items():
            self.tables[name] = [([bytes.fromhex(x) for x in ins], bytes.fromhex(out)) for ins, out in entries]

    def int(self, name, lo, hi):
        v = self.inputs.get(name, max(lo, min(hi, 0)))
        return max(lo, min(hi, v))

    def modvec(self, name, n, q, lo=0, hi=None):
        """n residues in [0, q) (or in [lo, hi])."""
        return [self.int(f"{name}{i}", lo, q - 1 if hi is None else hi) for i in range(n)]

    def bool(self, name):
        return bool(self.inputs.get(name, False))

    def bytes(self, name, n):
        v = self.inputs.get(name)
        v = bytes(n) if v is None else bytes.fromhex(v)
        return v[:n].ljust(n, b"\0")

    def str(self, name, n, lo=32, hi=126):
        v = self.inputs.get(name)
        if v is None:
            return chr(max(lo, 65 if hi >= 65 else lo)) * n
        return v

    def choice(self, name, options):
        options = list(options)
        return options[self.int(name, 0, len(options) - 1)]

    def concrete_choice(self, name, options):
        return self.choice(name, options)

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, msg, known=None):
        c = bool(c)
        self.observed.append(("check:" + msg, c))
        if not c:
            if known and known[0] in self.listed and bool(known[1]):
                self.known_failed.append((known[0], msg))
            else:
                self.failed.append(msg)

    def observe(self, name, v):
        self.observed.append((name, _plain(v)))

    def reach(self, msg="reached"):
        pass

    def merge(self, obj, *names):
        pass

    def stub(self, f, g):
        raise NotImplementedError

    def xof(self, name, injective=False, fixed=None):
        table = self.tables.get(name, [])

        def f(*args, n=None):
            n = fixed if n is None else n
            ins = [bytes(a) for a in args]
            best = b""
            for i, out in table:
                if i == ins and len(out) > len(best):
                    best = out
            if len(best) >= n:
                return best[:n]
            h = hashlib.shake_256(repr((name, ins)).encode()).digest(n)
            return best + h[len(best) : n]

        return f

    def eq(self, a, b):
        return a == b

    def both(self, *cs):
        return all(cs)

    def either(self, *cs):
        return any(cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def no(self, a):
        return not a

    def ite(self, c, a, b):
        return a if c else b


def _plain(v):
    if isinstance(v, (bytes, bytearray)):
        return bytes(v).hex()
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return int(v)
    if isinstance(v, str):
        return str(v)
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in v]
    return type(v).__name__


def run_concrete(case, inputs, ufs, listed):
    """(outcome dict) of one concrete execution."""
    h = Concrete(inputs, ufs, listed)
    out = {"failed": h.failed, "known": h.known_failed, "observed": h.observed, "exc": None, "skip": False, "binding": False}
    try:
        case.fn(h, **case.params)
    except Skip:
        out["skip"] = True
    except Exception as e:
        out["exc"] = exc_info(e)
        out["binding"] = exc_binding(e)
        out["tb"] = traceback.format_exc()[-3000:]
    finally:
        h.cleanup()
    return out


def exc_info(e):
    return type(e).__name__


def exc_binding(e):
    """True if the exception comes from the harness itself (or from a call of it that no longer fits)."""
    tb = e.__traceback__
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        last = fn
        tb = tb.tb_next
    import os

    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if isinstance(e, (ImportError,)):
        return True
    if isinstance(e, TypeError) and "<locals>" in str(e) and "argument" in str(e):
        return True  # a stub of the harness called with other arguments than it knows
    if isinstance(e, AttributeError):
        m = getattr(type(getattr(e, "obj", None)), "__module__", "")
        if m.startswith(("harnesses", "symex")):
            return True
    return last is not None and os.path.abspath(last).startswith(here)


# ------------------------------------------------------------------------------------------ symbolic mode
class Symbolic(Base):
    symbolic = True

    def __init__(self, e, run):
        super().__init__()
        self.e = e
        self.run = run
        self.uf_entries = {}
        self.uf_metas = {}

    # inputs ------------------------------------------------------------
    def _reg(self, name, v):
        self.e.inputs[name] = v
        return v

    def int(self, name, lo, hi):
        import z3

        from symex import values

        if lo == hi:
            return self._reg(name, lo)
        w = values._w(lo, hi)
        if lo == 0 and (hi & (hi + 1)) == 0:
            t = z3.ZeroExt(1, z3.BitVec("i_" + name, w - 1))
            return self._reg(name, values.SymInt(t, lo, hi))
        t = z3.BitVec("i_" + name, w)
        v = values.SymInt(t, lo, hi)
        self.e.declare(z3.And(t >= lo, t <= hi))
        return self._reg(name, v)

    def modvec(self, name, n, q, lo=0, hi=None):
        from symex import modlin

        out = modlin.vector(self.e, name, n, q, lo, hi)
        for i, v in enumerate(out):
            self.e.inputs[f"{name}{i}"] = v
        return out

    def bool(self, name):
        import z3

        from symex import values

        return self._reg(name, values.SymBool(z3.Bool("p_" + name)))

    def bytes(self, name, n):
        import z3

        from symex import values

        return self._reg(
            name, values.SymBytes([values.SymInt(z3.ZeroExt(1, z3.BitVec(f"b_{name}_{i}", 8)), 0, 255) for i in range(n)])
        )

    def str(self, name, n, lo=32, hi=126):
        import z3

        from symex import values

        cs = []
        for i in range(n):
            t = z3.BitVec(f"s_{name}_{i}", 9)
            self.e.declare(z3.And(t >= lo, t <= hi))
            cs.append(values.SymInt(t, lo, hi))
        return self._reg(name, values.SymStr(cs))

    def choice(self, name, options):
        """One of the options; forks over the position."""
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        from symex import values

        return options[values.concretise_int(i)]

    def assume(self, c):
        from symex import values

        self.e.assume(values.z(c))

    # obligations -------------------------------------------------------
    def check(self, c, msg, known=None):
        import z3

        from symex import values

        zc = values.z(c)
        self.observed.append(("check:" + msg, c))
        self.run.reached.add(msg)
        region = None
        if known and known[0] in self.run.listed:
            region = values.z(known[1])
        goal = zc if region is None else z3.Or(zc, region)
        verdict, m = self.e.refute(goal)
        if verdict == "fails":
            self.run.candidate(self, m, msg, "check")
            self.e.assume(goal)
        elif verdict == "unknown":
            self.e.note_incomplete("undecided obligation: " + msg)
        if region is not None and known[0] not in self.run.known_seen:
            r = self.e.feasible(z3.And(region, z3.Not(zc)))
            if r == z3.sat:
                s = self.e._solver()
                s.push()
                s.add(region, z3.Not(zc))
                if self.e._check(s, self.e.query_ms) == z3.sat:
                    self.run.known_seen.add(known[0])
                    self.run.candidate(self, s.model(), msg, "known:" + known[0])
                s.pop()

    def observe(self, name, v):
        self.observed.append((name, v))

    def reach(self, msg="reached"):
        self.run.reached.add(msg)

    # modelling ---------------------------------------------------------
    def merge(self, obj, *names):
        """Join the paths of a pure function of the code into one value (no effect in replay)."""
        from symex import merging

        for n in names:
            f = obj.__dict__.get(n)
            if f is None:
                continue
            if isinstance(f, staticmethod):
                self.undo.append((obj, n, f))
                setattr(obj, n, staticmethod(merging.merged(f.__func__)))
            elif callable(f):
                self.undo.append((obj, n, f))
                setattr(obj, n, merging.merged(f))

    def xof(self, name, injective=False, fixed=None):
        import z3

        from symex import values

        entries = self.uf_entries.setdefault(name, [])
        metas = self.uf_metas

        def f(*args, n=None):
            n = fixed if n is None else n
            n = n if type(n) is int else int(n)
            ins = []
            for a in args:
                el = values._elems(a)
                if el is None:
                    raise core_unsupported("uninterpreted function of a non-bytes value")
                ins.append(list(el))
            k = len(entries)
            self.e.fresh += 1
            keys = [_key(x) for x in ins]
            meta = metas.setdefault(name, [])
            # identical arguments: the same stream
            for (i2, o2), k2 in zip(entries, meta):
                if len(o2) >= n and len(keys) == len(k2) and all(p[2] == q[2] for p, q in zip(keys, k2)):
                    return values.SymBytes(o2[:n])
            out = [values.SymInt(z3.ZeroExt(1, z3.BitVec(f"u_{name}_{k}_{j}", 8)), 0, 255) for j in range(n)]
            for (i2, o2), k2 in zip(entries, meta):
                if len(k2) != len(keys) or any(len(p[2]) != len(q[2]) or ((p[0] ^ q[0]) & p[1] & q[1]) for p, q in zip(keys, k2)):
                    eq = False
                else:
                    parts = []
                    for x, y, p, q in zip(i2, ins, k2, keys):
                        d = [i for i, (s, t) in enumerate(zip(p[2], q[2])) if s != t]
                        if d:
                            parts.append(values.seq_eq([x[i] for i in d], [y[i] for i in d]))
                    eq = values.and_(*parts) if parts else True
                m = min(len(out), len(o2))
                if eq is False and not (injective and m >= 8):
                    continue
                oeq = values.seq_eq(out[:m], o2[:m])
                if eq is not False and m:
                    self.e.pc.append(z3.Implies(values.z(eq), values.z(oeq)))
                if injective and m and m >= 8:
                    self.e.pc.append(z3.Implies(values.z(oeq), values.z(eq)))
            meta.append(keys)
            self.e.last_model = None
            entries.append((ins, out))
            return values.SymBytes(out)

        return f

    def eq(self, a, b):
        from symex import values

        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return values.and_(*[_tb(self.eq(x, y)) for x, y in zip(a, b)])
        return _tb(a == b)

    def both(self, *cs):
        from symex import values

        return values.and_(*cs)

    def either(self, *cs):
        from symex import values

        return values.or_(*cs)

    def no(self, a):
        from symex import values

        return values.not_(a)

    def implies(self, a, b):
        from symex import values

        return values.or_(values.not_(a), b)

    def iff(self, a, b):
        import z3

        from symex import values

        return values.SymBool(values.z(a) == values.z(b))

    def ite(self, c, a, b):
        from symex import values

        r = values.ite(c, a, b)
        if r is None:
            return a if c else b
        return r


def _tb(x):
    from symex import values

    if type(x) is values.SymBool or isinstance(x, bool):
        return x
    if x is NotImplemented:
        return False
    return bool(x)


def core_unsupported(msg):
    from symex import core

    return core.Unsupported(msg)


def _key(seq):
    """(concrete bytes, mask of concrete bytes, one key per byte) of a sequence of byte values."""
    c, m, k = bytearray(len(seq)), bytearray(len(seq)), []
    for i, v in enumerate(seq):
        if type(v) is int:
            c[i], m[i] = v, 255
            k.append(v)
        else:
            k.append(-1 - v.t.get_id())
    return int.from_bytes(c, "big"), int.from_bytes(m, "big"), k


class CaseRun:
    """Symbolic exploration of one case."""

    def __init__(self, case, budget, listed, samples):
        self.case, self.budget, self.listed, self.samples = case, budget, set(listed), samples
        self.reached = set()
        self.known_seen = set()
        self.candidates = []
        self.fallbacks = []
        self.validations = []
        self.aborted = []
        self.seen_msgs = {}

    def candidate(self, h, model, msg, kind):
        n = self.seen_msgs.get((msg, kind), 0)
        self.seen_msgs[(msg, kind)] = n + 1
        if n >= 3:
            return
        rec = self.record(h, model)
        rec.update({"msg": msg, "kind": kind})
        self.candidates.append(rec)

    def record(self, h, model):
        from symex import values

        inputs = {}
        for k, v in h.e.inputs.items():
            c = values.to_model_value(v, model)
            inputs[k] = c.hex() if isinstance(c, bytes) else c
        ufs = {}
        for name, entries in h.uf_entries.items():
            ufs[name] = [
                [
                    [bytes(values.to_model_value(x, model) for x in i).hex() for i in ins],
                    bytes(values.to_model_value(x, model) for x in out).hex(),
                ]
                for ins, out in entries
            ]
        return {"case": self.case.name, "inputs": inputs, "ufs": ufs}

    def explore(self):
        from symex import core, rt, values

        t0 = time.monotonic()
        e = core.Engine(t0 + self.budget, logic=self.case.logic)
        core.set_engine(e)
        self.engine = e
        case = self.case
        err = None
        while e.worklist:
            if e.stats.paths >= case.max_paths:
                e.note_incomplete(f"path limit {case.max_paths} reached")
                break
            if time.monotonic() > e.deadline:
                e.note_incomplete("time budget of the case used up")
                break
            # newest first
            prefix = e.worklist.pop()
            e.reset_path(prefix)
            h = Symbolic(e, self)
            outcome = None
            try:
                case.fn(h, **case.params)
                outcome = "ok"
            except core.Infeasible:
                e.stats.infeasible += 1
            except core.OutOfTime:
                e.note_incomplete("time budget of the case used up")
                self.fallback(h)
            except core.Unsupported as x:
                e.note_incomplete("not encoded: " + str(x))
                self.fallback(h)
            except Exception as x:
                outcome = "exc"
                if exc_binding(x):
                    e.note_incomplete("binding: " + "".join(traceback.format_exception_only(x)).strip()[:300])
                    err = traceback.format_exc()[-2500:]
                    self.aborted.append(err)
                    self.fallback(h)
                else:
                    m = e.model()
                    if m is None:
                        e.note_incomplete("an exception on a path without a model")
                    else:
                        self.candidate(h, m, "uncaught " + type(x).__name__, "exc:" + type(x).__name__)
                        self.candidates and self.candidates[-1].setdefault("tb", traceback.format_exc()[-2500:])
            finally:
                h.cleanup()
            e.stats.paths += 1
            if outcome == "ok" and len(self.validations) < self.samples:
                try:
                    m = e.model()
                    if m is not None:
                        rec = self.record(h, m)
                        rec["observed"] = [[n, _plain(values.to_model_value(v, m))] for n, v in h.observed]
                        self.validations.append(rec)
                except core.PathEnd:
                    pass
        core.set_engine(None)
        s = e.stats
        return {
            "case": case.name,
            "bound": case.bound,
            "params": {k: repr(v)[:200] for k, v in case.params.items()},
            "paths": s.paths,
            "infeasible": s.infeasible,
            "decisions": s.decisions,
            "queries": s.queries,
            "sat": s.sat,
            "unsat": s.unsat,
            "unknown": s.unknown,
            "solver_s": round(s.solver_s, 3),
            "obligations": s.obligations,
            "discharged": s.discharged,
            "trivial": s.trivial,
            "incomplete": e.incomplete,
            "reached": sorted(self.reached),
            "functions": sorted(rt.FUNCTIONS),
            "candidates": self.candidates,
            "fallbacks": self.fallbacks[:4],
            "validations": self.validations,
            "aborted": self.aborted[:2],
            "wall_s": round(time.monotonic() - t0, 3),
        }

    def fallback(self, h):
        if len(self.fallbacks) >= 4:
            return
        from symex import core

        try:
            old = h.e.deadline
            h.e.deadline = time.monotonic() + 2
            m = h.e.model()
            h.e.deadline = old
        except core.PathEnd:
            return
        if m is not None:
            rec = self.record(h, m)
            rec.update({"msg": "concolic continuation of a path that was not encoded", "kind": "fallback"})
            self.fallbacks.append(rec)

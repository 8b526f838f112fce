"""Symbolic values: SymInt (exact integers of known range), SymBool, SymBytes, SymStr.

A SymInt carries a bit-vector term that is always wide enough for the interval [lo, hi] the value lies in, so
its arithmetic is that of Python's unbounded integers; nothing wraps.
"""

from __future__ import annotations

import z3

from symex import core
from symex.core import Unsupported

CONCRETISE_LIMIT = 600


def _w(lo, hi):
    return max(lo.bit_length() if lo >= 0 else (lo + 1).bit_length(), hi.bit_length() if hi >= 0 else (hi + 1).bit_length()) + 1


def _fit(t, w):
    s = t.size()
    if s == w:
        return t
    if s < w:
        return z3.SignExt(w - s, t)
    return z3.Extract(w - 1, 0, t)


def is_sym(x):
    return type(x) in _SYMS


def mk(t, lo, hi):
    """SymInt from a term, or an int when the interval is a point."""
    if lo == hi:
        return lo
    w = _w(lo, hi)
    t = _fit(t, w)
    return SymInt(t, lo, hi)


def _term(x, w):
    if type(x) is SymInt:
        return _fit(x.t, w)
    return z3.BitVecVal(x, w)


def _rng(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    return x, x


def _num(x):
    """int / SymInt of an operand, or None."""
    t = type(x)
    if t is SymInt or t is int:
        return x
    if t is bool:
        return int(x)
    if t is SymBool:
        return x.as_int()
    if t.__name__ == "SymMod":
        return x.exact()
    if isinstance(x, int):
        return int(x)
    return None


class SymFrac:
    """num/den with a constant positive denominator (result of true division)."""

    def __init__(self, num, den):
        self.num, self.den = num, den

    def __ceil__(self):
        return -((-self.num) // self.den)

    def __floor__(self):
        return self.num // self.den

    def __trunc__(self):
        if self.num >= 0:
            return self.num // self.den
        return -((-self.num) // self.den)

    __int__ = None

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported("round(x/y, n)")
        q = self.num // self.den
        r2 = 2 * (self.num % self.den)
        up = (r2 > self.den) if not isinstance(r2 > self.den, SymBool) else (r2 > self.den)
        half = r2 == self.den
        odd = (q % 2) == 1
        inc = or_(up, and_(half, odd))
        return q + (inc.as_int() if isinstance(inc, SymBool) else int(inc))

    def _cmp(self, o, op):
        from fractions import Fraction

        if isinstance(o, SymFrac):
            return op(self.num * o.den, o.num * self.den)
        if isinstance(o, (int, SymInt)):
            return op(self.num, o * self.den)
        f = Fraction(o)
        return op(self.num * f.denominator, f.numerator * self.den)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        raise Unsupported("hash of a symbolic fraction")

    def __mul__(self, o):
        return SymFrac(self.num * o, self.den)

    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, SymFrac):
            return SymFrac(self.num * o.den + o.num * self.den, self.den * o.den)
        from fractions import Fraction

        if isinstance(o, float):
            f = Fraction(o)
            return SymFrac(self.num * f.denominator + f.numerator * self.den, self.den * f.denominator)
        return SymFrac(self.num + o * self.den, self.den)

    __radd__ = __add__

    def __float__(self):
        return self.num.__index__() / self.den


class SymInt:
    __slots__ = ("t", "lo", "hi")

    @property
    def __class__(self):
        return int

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi

    # -- concretisation -------------------------------------------------
    def __index__(self):
        return concretise_int(self)

    __int__ = __index__

    def __float__(self):
        return float(concretise_int(self))

    def __hash__(self):
        return hash(concretise_int(self))

    def __bool__(self):
        return bool(self != 0)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic int")

    def __repr__(self):
        return "<symint>"

    def __str__(self):
        return "<symint>"

    def __format__(self, spec):
        return "<symint>"

    # -- arithmetic -----------------------------------------------------
    def __add__(self, o):
        o = _num(o)
        if o is None:
            return NotImplemented
        if type(o) is int and o == 0:
            return self
        a, b = _rng(self), _rng(o)
        lo, hi = a[0] + b[0], a[1] + b[1]
        w = max(_w(lo, hi), _w(*a), _w(*b))
        return mk(_term(self, w) + _term(o, w), lo, hi)

    __radd__ = __add__

    def __sub__(self, o):
        o = _num(o)
        if o is None:
            return NotImplemented
        if type(o) is int and o == 0:
            return self
        return _sub(self, o)

    def __rsub__(self, o):
        o = _num(o)
        if o is None:
            return NotImplemented
        return _sub(o, self)

    def __neg__(self):
        return _sub(0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        hi = max(-self.lo, self.hi)
        w = _w(0, hi) + 1
        t = _fit(self.t, w)
        return mk(z3.If(t < 0, -t, t), 0, hi)

    def __mul__(self, o):
        n = _num(o)
        if n is None:
            if type(o) is float:
                from fractions import Fraction

                f = Fraction(o)
                return SymFrac(self * f.numerator, f.denominator)
            if isinstance(o, (bytes, bytearray, str, list, tuple)):
                return o * concretise_int(self)
            return NotImplemented
        o = n
        if type(o) is int:
            if o == 0:
                return 0
            if o == 1:
                return self
        a, b = _rng(self), _rng(o)
        ps = [x * y for x in a for y in b]
        lo, hi = min(ps), max(ps)
        w = max(_w(lo, hi), _w(*a), _w(*b))
        return mk(_term(self, w) * _term(o, w), lo, hi)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _num(o)
        if type(o) is not int:
            if o is None:
                return NotImplemented
            o = concretise_int(o)
        if o == 0:
            raise ZeroDivisionError("division by zero")
        if o < 0:
            return SymFrac(-self, -o)
        return SymFrac(self, o)

    def __rtruediv__(self, o):
        d = concretise_int(self)
        return o / d

    def __floordiv__(self, o):
        o = _num(o)
        if o is None:
            return NotImplemented
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        o = _num(o)
        if o is None:
            return NotImplemented
        return _floordiv(o, self)

    def __mod__(self, o):
        o = _num(o)
        if o is None:
            return NotImplemented
        return _mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        o = _num(o)
        if o is None:
            return NotImplemented
        return _mod(o, self)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    def __pow__(self, o, m=None):
        return sym_pow(self, o, m)

    def __rpow__(self, o, m=None):
        return sym_pow(o, self, m)

    def __lshift__(self, o):
        o = _num(o)
        if o is None:
            return NotImplemented
        if type(o) is SymInt:
            o = concretise_int(o)
        if o < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo << o, self.hi << o
        w = _w(lo, hi)
        return mk(z3.Concat(_fit(self.t, w - o) if w > o else self.t, z3.BitVecVal(0, o)) if o else self.t, lo, hi)

    def __rlshift__(self, o):
        return o << concretise_int(self)

    def __rshift__(self, o):
        o = _num(o)
        if o is None:
            return NotImplemented
        if type(o) is SymInt:
            o = concretise_int(o)
        if o < 0:
            raise ValueError("negative shift count")
        lo, hi = self.lo >> o, self.hi >> o
        if lo == hi:
            return lo
        if o >= self.t.size():
            return mk(z3.If(self.t < 0, z3.BitVecVal(-1, 2), z3.BitVecVal(0, 2)), lo, hi)
        return mk(z3.Extract(self.t.size() - 1, o, self.t), lo, hi)

    def __rrshift__(self, o):
        return o >> concretise_int(self)

    def __and__(self, o):
        return _bit(self, o, "and")

    __rand__ = __and__

    def __or__(self, o):
        return _bit(self, o, "or")

    __ror__ = __or__

    def __xor__(self, o):
        return _bit(self, o, "xor")

    __rxor__ = __xor__

    def __invert__(self):
        return _sub(-1, self)

    # -- comparisons ----------------------------------------------------
    def __eq__(self, o):
        n = _num(o)
        if n is None:
            if type(o) is float and o == int(o):
                n = int(o)
            elif isinstance(o, SymFrac):
                return o == self
            else:
                return NotImplemented if not isinstance(o, (str, bytes, type(None), list, tuple, dict)) else False
        return _cmp(self, n, "eq")

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return not_(r)

    def __lt__(self, o):
        return _ord(self, o, "lt")

    def __le__(self, o):
        return _ord(self, o, "le")

    def __gt__(self, o):
        return _ord(self, o, "gt")

    def __ge__(self, o):
        return _ord(self, o, "ge")

    # -- int methods ----------------------------------------------------
    def bit_length(self):
        x = abs(self)
        if type(x) is int:
            return x.bit_length()
        n = x.hi.bit_length()
        r = z3.BitVecVal(0, 12)
        for i in range(n):
            r = z3.If(z3.Extract(i, i, x.t) == 1, z3.BitVecVal(i + 1, 12), r)
        return mk(r, x.lo.bit_length() if x.lo > 0 else 0, n)

    def bit_count(self):
        x = abs(self)
        if type(x) is int:
            return x.bit_count()
        n = x.hi.bit_length()
        r = 0
        for i in range(n):
            r = r + mk(z3.ZeroExt(1, z3.Extract(i, i, x.t)), 0, 1)
        return r

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        length = length if type(length) is int else int(length)
        if not signed:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if self >= (1 << (8 * length)):
                raise OverflowError("int too big to convert")
            v = self
            out = [byte_of(v, i) for i in range(length)]
        else:
            if or_(self < -(1 << (8 * length - 1)), self >= (1 << (8 * length - 1))):
                raise OverflowError("int too big to convert")
            t = _fit(self.t, 8 * length) if length else None
            out = [mk(z3.ZeroExt(1, z3.Extract(8 * i + 7, 8 * i, t)), 0, 255) for i in range(length)]
        if byteorder == "big":
            out.reverse()
        return SymBytes(out)

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def __round__(self, nd=None):
        return self

    def __ceil__(self):
        return self

    def __floor__(self):
        return self

    def __trunc__(self):
        return self

    def is_integer(self):
        return True


def byte_of(v, i):
    """Byte i (little endian) of a non-negative value."""
    if type(v) is int:
        return (v >> (8 * i)) & 255
    w = v.t.size()
    if 8 * i >= w:
        return 0
    top = min(8 * i + 7, w - 1)
    hi = min(255, v.hi >> (8 * i))
    if hi <= 0:
        return 0
    return mk(z3.ZeroExt(1 + 7 - (top - 8 * i), z3.Extract(top, 8 * i, v.t)), 0, hi)


def _sub(a, b):
    ra, rb = _rng(a), _rng(b)
    lo, hi = ra[0] - rb[1], ra[1] - rb[0]
    w = max(_w(lo, hi), _w(*ra), _w(*rb))
    return mk(_term(a, w) - _term(b, w), lo, hi)


CHAIN = 4  # quotients with at most this many values are written as a chain of comparisons


def _floordiv(a, b):
    if type(b) is SymInt:
        if b.lo <= 0 <= b.hi:
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
        ra = _rng(a)
        if ra[0] >= 0 and b.lo >= 0:
            w = max(_w(*ra), _w(b.lo, b.hi))
            return mk(z3.UDiv(_term(a, w), _term(b, w)), 0, ra[1])
        b = concretise_int(b)
        if type(a) is int:
            return a // b
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if b < 0:
        return _floordiv(-a, -b)
    if b == 1:
        return a
    if b & (b - 1) == 0:
        return a >> (b.bit_length() - 1)
    lo, hi = a.lo // b, a.hi // b
    if lo == hi:
        return lo
    if hi - lo <= CHAIN:
        w = _w(lo, hi)
        wa = _w(min(a.lo, 0), max(a.hi, hi * b))
        t = _fit(a.t, wa)
        r = z3.BitVecVal(lo, w)
        for k in range(lo + 1, hi + 1):
            r = z3.If(t >= z3.BitVecVal(k * b, wa), z3.BitVecVal(k, w), r)
        return mk(r, lo, hi)
    if a.lo >= 0:
        w = max(_w(a.lo, a.hi), _w(b, b))
        return mk(z3.UDiv(_fit(a.t, w), z3.BitVecVal(b, w)), lo, hi)
    off = -lo
    s = a + off * b
    return _floordiv(s, b) - off


def _mod(a, b):
    if type(b) is SymInt:
        if b.lo <= 0 <= b.hi:
            if b == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
        ra = _rng(a)
        if ra[0] >= 0 and b.lo >= 0:
            w = max(_w(*ra), _w(b.lo, b.hi))
            return mk(z3.URem(_term(a, w), _term(b, w)), 0, min(ra[1], b.hi - 1))
        b = concretise_int(b)
        if type(a) is int:
            return a % b
    if b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    if b < 0:
        return -_mod(-a, -b)
    if b == 1:
        return 0
    if a.lo >= 0 and a.hi < b:
        return a
    if b & (b - 1) == 0:
        k = b.bit_length() - 1
        t = a.t
        if t.size() < k:
            t = z3.SignExt(k - t.size(), t)
        return mk(z3.ZeroExt(1, z3.Extract(k - 1, 0, t)), 0, b - 1)
    lo, hi = a.lo // b, a.hi // b
    if hi - lo <= CHAIN:
        wa = _w(min(a.lo, 0, lo * b), max(a.hi, hi * b, b))
        t = _fit(a.t, wa)
        r = t - z3.BitVecVal(lo * b, wa)
        for k in range(lo + 1, hi + 1):
            r = z3.If(t >= z3.BitVecVal(k * b, wa), t - z3.BitVecVal(k * b, wa), r)
        return mk(_fit(r, _w(0, b - 1)), 0, b - 1)
    if a.lo >= 0:
        w = max(_w(a.lo, a.hi), _w(b, b))
        return mk(z3.URem(_fit(a.t, w), z3.BitVecVal(b, w)), 0, b - 1)
    return _mod(a + (-lo) * b, b)


def _remk(x, lo, hi):
    """Same value with a tighter (known) interval."""
    if type(x) is int:
        return x
    return mk(x.t, lo, hi)


def _bit(a, o, op):
    b = _num(o)
    if b is None:
        return NotImplemented
    if type(o) is bool and False:
        pass
    ra, rb = _rng(a), _rng(b)
    if op == "and":
        if type(b) is int and b >= 0:
            if b == 0:
                return 0
            if ra[0] >= 0 and (b & (b + 1)) == 0 and ra[1] <= b:
                return a
        if ra[0] >= 0 and rb[0] >= 0:
            lo, hi = 0, min(ra[1], rb[1])
        elif ra[0] >= 0:
            lo, hi = 0, ra[1]
        elif rb[0] >= 0:
            lo, hi = 0, rb[1]
        else:
            k = max(_w(*ra), _w(*rb)) - 1
            lo, hi = -(1 << k), max(ra[1], rb[1], -1)
            hi = (1 << k) - 1
    else:
        if type(b) is int and b == 0:
            return a
        if ra[0] >= 0 and rb[0] >= 0:
            k = max(ra[1].bit_length(), rb[1].bit_length())
            lo, hi = 0, (1 << k) - 1
            if op == "or":
                lo = max(ra[0], rb[0])
        else:
            k = max(_w(*ra), _w(*rb)) - 1
            lo, hi = -(1 << k), (1 << k) - 1
    w = max(_w(*ra), _w(*rb), _w(lo, hi))
    x, y = _term(a, w), _term(b, w)
    t = x & y if op == "and" else (x | y if op == "or" else x ^ y)
    return mk(t, lo, hi)


def _cmp(a, b, op):
    (al, ah), (bl, bh) = _rng(a), _rng(b)
    if op == "eq":
        if ah < bl or bh < al:
            return False
        w = max(_w(al, ah), _w(bl, bh))
        return SymBool(_term(a, w) == _term(b, w))
    if op == "lt":
        if ah < bl:
            return True
        if al >= bh:
            return False
        w = max(_w(al, ah), _w(bl, bh))
        return SymBool(_term(a, w) < _term(b, w))
    if ah <= bl:
        return True
    if al > bh:
        return False
    w = max(_w(al, ah), _w(bl, bh))
    return SymBool(_term(a, w) <= _term(b, w))


def _ord(a, o, op):
    b = _num(o)
    if b is None:
        if type(o) is float:
            from fractions import Fraction

            if o in (float("inf"), float("-inf")):
                return (o > 0) == (op in ("lt", "le"))
            f = Fraction(o)
            return _ord(a * f.denominator, f.numerator, op)
        if isinstance(o, SymFrac):
            return {"lt": o > a, "le": o >= a, "gt": o < a, "ge": o <= a}[op]
        return NotImplemented
    if op == "lt":
        return _cmp(a, b, "lt")
    if op == "le":
        return _cmp(a, b, "le")
    if op == "gt":
        return _cmp(b, a, "lt")
    return _cmp(b, a, "le")


def sym_pow(a, e, m=None):
    if type(e) is SymInt and type(a) is int and m is None and 0 <= e.lo and e.hi - e.lo <= 64:
        r = a**e.hi
        for k in range(e.lo, e.hi):
            r = ite(e == k, a**k, r)
        return r
    if type(e) is SymInt:
        e = concretise_int(e)
    if type(m) is SymInt:
        m = concretise_int(m)
    if type(a) is not SymInt:
        return pow(a, e, m) if m is not None else a**e
    if e < 0:
        raise Unsupported("negative power of a symbolic int")
    if e > 4096:
        raise Unsupported("large power of a symbolic int")
    r = 1
    base = a if m is None else a % m
    while e:
        if e & 1:
            r = r * base
            if m is not None:
                r = r % m
        e >>= 1
        if e:
            base = base * base
            if m is not None:
                base = base % m
    return r


def concretise_int(x):
    """A concrete value of x on this path: forks over all feasible values (up to a limit)."""
    if type(x) is not SymInt:
        return int(x)
    e = core.engine()
    n = 0
    while True:
        s = z3.simplify(x.t)
        if z3.is_bv_value(s):
            return s.as_signed_long()
        v = _stable_value(e, x)
        n += 1
        if n > CONCRETISE_LIMIT:
            e.note_incomplete("an integer with many feasible values was fixed to some of them")
            e.assume(x.t == z3.BitVecVal(v, x.t.size()))
            return v
        if e.decide(x.t == z3.BitVecVal(v, x.t.size())):
            return v


def _stable_value(e, x):
    """Value to try next; recorded so that a re-execution asks the same question at the same decision."""
    e.fresh += 1
    key = (e.fresh, e.__dict__.get("scope", ()), tuple(e.taken))
    mem = e.__dict__.setdefault("cv_memory", {})
    if key in mem:
        return mem[key]
    m = e.model()
    if m is None:
        raise Unsupported("no model to concretise an integer")
    v = m.eval(x.t, model_completion=True).as_signed_long()
    mem[key] = v
    return v


class SymBool:
    __slots__ = ("t",)

    @property
    def __class__(self):
        return bool

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return core.engine().decide(self.t)

    def as_int(self):
        return SymInt(z3.If(self.t, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __hash__(self):
        return hash(bool(self))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<symbool>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<symbool>"

    def __and__(self, o):
        if isinstance(o, bool):
            return and_(self, o)
        return self.as_int() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, bool):
            return or_(self, o)
        return self.as_int() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, bool):
            return SymBool(z3.Xor(self.t, o.t if type(o) is SymBool else z3.BoolVal(o)))
        return self.as_int() ^ o

    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) is SymBool:
            return SymBool(self.t == o.t)
        if type(o) is bool:
            return self if o else not_(self)
        if isinstance(o, int):
            return self.as_int() == o
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __invert__(self):
        return ~self.as_int()


def _deleg(name):
    def f(self, *a):
        return getattr(SymInt, name)(self.as_int(), *a)

    f.__name__ = name
    return f


for _n in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __floordiv__ __rfloordiv__ __mod__ __rmod__ __lshift__ "
    "__rlshift__ __rshift__ __rrshift__ __neg__ __abs__ __lt__ __le__ __gt__ __ge__ __pow__ to_bytes bit_length"
).split():
    setattr(SymBool, _n, _deleg(_n))


def z(b):
    """z3 Bool of a bool/SymBool."""
    if type(b) is SymBool:
        return b.t
    return z3.BoolVal(bool(b))


def not_(b):
    if type(b) is SymBool:
        return SymBool(z3.Not(b.t))
    return not b


def and_(*bs):
    out = []
    for b in bs:
        if type(b) is SymBool:
            out.append(b.t)
        elif not b:
            return False
    if not out:
        return True
    return SymBool(z3.And(*out) if len(out) > 1 else out[0])


def or_(*bs):
    out = []
    for b in bs:
        if type(b) is SymBool:
            out.append(b.t)
        elif b:
            return True
    if not out:
        return False
    return SymBool(z3.Or(*out) if len(out) > 1 else out[0])


def ite(c, a, b):
    """c ? a : b for ints / bools / equal-length byte strings."""
    if type(c) is not SymBool:
        return a if c else b
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return SymBool(z3.If(c.t, z(a), z(b)))
    na, nb = _num(a), _num(b)
    if na is not None and nb is not None:
        (al, ah), (bl, bh) = _rng(na), _rng(nb)
        lo, hi = min(al, bl), max(ah, bh)
        if lo == hi:
            return lo
        w = _w(lo, hi)
        return mk(z3.If(c.t, _term(na, w), _term(nb, w)), lo, hi)
    return None


# ----------------------------------------------------------------------------------------------- bytes
def _elems(o):
    """list of byte values of a bytes-like (symbolic or not) or None."""
    if type(o) is SymBytes:
        return o.b
    if isinstance(o, (bytes, bytearray)):
        return list(o)
    if isinstance(o, memoryview):
        return list(bytes(o))
    return None


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    conds = []
    for x, y in zip(a, b):
        if x is y:
            continue
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            continue
        c = x == y
        if c is True:
            continue
        if c is False:
            return False
        conds.append(c)
    return and_(*conds)


def seq_lt(a, b):
    """Lexicographic a < b."""
    r = len(a) < len(b)
    n = min(len(a), len(b))
    for i in range(n - 1, -1, -1):
        r = or_(a[i] < b[i], and_(a[i] == b[i], r))
    return r


class SymBytes:
    """bytes (or bytearray) of known length with symbolic contents."""

    __slots__ = ("b", "mut")

    @property
    def __class__(self):
        return bytearray if self.mut else bytes

    def __init__(self, b, mut=False):
        self.b = list(b)
        self.mut = mut

    def concrete(self):
        """bytes if every element is concrete, else None."""
        for x in self.b:
            if type(x) is not int:
                return None
        return bytes(self.b)

    def _new(self, b):
        return SymBytes(b, self.mut)

    def __len__(self):
        return len(self.b)

    def __iter__(self):
        return iter(list(self.b)) if not self.mut else iter(self.b)

    def __bool__(self):
        return len(self.b) > 0

    def __hash__(self):
        if self.mut:
            raise TypeError("unhashable type: 'bytearray'")
        return hash(concretise_bytes(self))

    def __bytes__(self):
        return concretise_bytes(self)

    def __buffer__(self, flags):
        return memoryview(concretise_bytes(self))

    def __copy__(self):
        return self._new(self.b)

    def __deepcopy__(self, memo):
        return self._new(self.b)

    def __reduce_ex__(self, p):
        raise Unsupported("pickling symbolic bytes")

    def __repr__(self):
        c = self.concrete()
        return repr(c) if c is not None else "<symbytes>"

    __str__ = __repr__

    def __format__(self, spec):
        return format(repr(self), spec)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._new(self.b[_slice(i)])
        if type(i) is SymInt:
            r = select(self.b, i)
            if r is not None:
                return r
        return self.b[i]

    def __setitem__(self, i, v):
        if not self.mut:
            raise TypeError("'bytes' object does not support item assignment")
        if isinstance(i, slice):
            v = _elems(v) if _elems(v) is not None else list(v)
            self.b[_slice(i)] = v
            return
        _check_byte(v)
        self.b[i] = v

    def __delitem__(self, i):
        if not self.mut:
            raise TypeError("'bytes' object doesn't support item deletion")
        del self.b[_slice(i) if isinstance(i, slice) else i]

    def append(self, v):
        _check_byte(v)
        self.b.append(v)

    def extend(self, o):
        if type(o) is not bytes and type(o) is not bytearray:
            plain = type(o) is SymBytes
            o = _elems(o) if _elems(o) is not None else list(o)
            if not plain:
                for v in o:
                    _check_byte(v)
        self.b.extend(o)

    def insert(self, i, v):
        _check_byte(v)
        self.b.insert(i, v)

    def pop(self, i=-1):
        return self.b.pop(i)

    def reverse(self):
        self.b.reverse()

    def clear(self):
        self.b.clear()

    def copy(self):
        return self._new(self.b)

    def __add__(self, o):
        e = _elems(o)
        if e is None:
            return NotImplemented
        return self._new(self.b + e)

    def __radd__(self, o):
        e = _elems(o)
        if e is None:
            return NotImplemented
        return SymBytes(e + self.b, isinstance(o, bytearray))

    def __iadd__(self, o):
        if not self.mut:
            return self.__add__(o)
        self.extend(o)
        return self

    def __mul__(self, n):
        return self._new(self.b * int(n))

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported("bytes formatting")

    def __eq__(self, o):
        e = _elems(o)
        if e is None:
            return NotImplemented if not isinstance(o, (str, int, type(None), list, tuple)) else False
        return seq_eq(self.b, e)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        e = _elems(o)
        return NotImplemented if e is None else seq_lt(self.b, e)

    def __gt__(self, o):
        e = _elems(o)
        return NotImplemented if e is None else seq_lt(e, self.b)

    def __le__(self, o):
        e = _elems(o)
        return NotImplemented if e is None else not_(seq_lt(e, self.b))

    def __ge__(self, o):
        e = _elems(o)
        return NotImplemented if e is None else not_(seq_lt(self.b, e))

    def __contains__(self, o):
        if isinstance(o, int):
            return bool(or_(*[x == o for x in self.b]))
        return self.find(o) >= 0

    def _match_at(self, e, i):
        return seq_eq(self.b[i : i + len(e)], e)

    def find(self, sub, start=0, end=None):
        e = [sub] if isinstance(sub, int) else _elems(sub)
        start, end, _ = slice(start, end).indices(len(self.b))
        for i in range(start, end - len(e) + 1):
            if self._match_at(e, i):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        e = [sub] if isinstance(sub, int) else _elems(sub)
        start, end, _ = slice(start, end).indices(len(self.b))
        for i in range(end - len(e), start - 1, -1):
            if self._match_at(e, i):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def count(self, sub):
        e = [sub] if isinstance(sub, int) else _elems(sub)
        if len(e) == 1:
            r = 0
            for x in self.b:
                c = x == e[0]
                r = r + (c.as_int() if type(c) is SymBool else int(c))
            return r
        raise Unsupported("bytes.count")

    def startswith(self, p, *a):
        if a:
            return self[slice(*a)].startswith(p)
        if isinstance(p, tuple):
            return or_(*[self.startswith(x) for x in p])
        e = _elems(p)
        return len(e) <= len(self.b) and self._match_at(e, 0)

    def endswith(self, p):
        if isinstance(p, tuple):
            return or_(*[self.endswith(x) for x in p])
        e = _elems(p)
        if len(e) > len(self.b):
            return False
        return self._match_at(e, len(self.b) - len(e))

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and self.endswith(p) else self

    def _strip_set(self, chars):
        return list(b" \t\n\r\x0b\f") if chars is None else _elems(chars)

    def lstrip(self, chars=None):
        cs = self._strip_set(chars)
        i = 0
        while i < len(self.b) and or_(*[self.b[i] == c for c in cs]):
            i += 1
        return self._new(self.b[i:])

    def rstrip(self, chars=None):
        cs = self._strip_set(chars)
        i = len(self.b)
        while i > 0 and or_(*[self.b[i - 1] == c for c in cs]):
            i -= 1
        return self._new(self.b[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def ljust(self, n, fill=b" "):
        return self._new(self.b + _elems(fill) * max(0, n - len(self.b)))

    def rjust(self, n, fill=b" "):
        return self._new(_elems(fill) * max(0, n - len(self.b)) + self.b)

    def replace(self, a, b, count=-1):
        a, b = _elems(a), _elems(b)
        if not a:
            raise Unsupported("bytes.replace of an empty pattern")
        out, i = [], 0
        while i < len(self.b):
            if count != 0 and i + len(a) <= len(self.b) and self._match_at(a, i):
                out += b
                i += len(a)
                count -= 1
            else:
                out.append(self.b[i])
                i += 1
        return self._new(out)

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("bytes.split()")
        e = _elems(sep)
        out, cur, i = [], [], 0
        while i < len(self.b):
            if maxsplit != 0 and i + len(e) <= len(self.b) and self._match_at(e, i):
                out.append(self._new(cur))
                cur = []
                i += len(e)
                maxsplit -= 1
            else:
                cur.append(self.b[i])
                i += 1
        out.append(self._new(cur))
        return out

    def join(self, it):
        out = []
        for n, x in enumerate(it):
            if n:
                out += self.b
            e = _elems(x)
            if e is None:
                raise TypeError("sequence item: expected a bytes-like object")
            out += e
        return self._new(out)

    def hex(self, *a):
        if a:
            raise Unsupported("bytes.hex(sep)")
        out = []
        for x in self.b:
            if type(x) is int:
                out += [ord(c) for c in f"{x:02x}"]
            else:
                for nib in (x >> 4, x & 15):
                    out.append(nib + 48 if type(nib) is int and nib < 10 else ite(nib < 10, nib + 48, nib + 87))
        return mkstr(out)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if enc in ("utf-8", "utf8", "ascii", "us-ascii"):
            for x in self.b:
                if not (x < 128):
                    if enc in ("ascii", "us-ascii") and errors == "strict":
                        raise UnicodeDecodeError("ascii", b"\x80", 0, 1, "ordinal not in range(128)")
                    c = concretise_bytes(self, "non-ASCII text was fixed to sample values")
                    return c.decode(encoding, errors)
            return mkstr(self.b)
        if enc in ("latin-1", "iso-8859-1", "latin1"):
            return mkstr(self.b)
        return concretise_bytes(self).decode(encoding, errors)

    def upper(self):
        return self._new([ite(and_(x >= 97, x <= 122), x - 32, x) for x in self.b])

    def lower(self):
        return self._new([ite(and_(x >= 65, x <= 90), x + 32, x) for x in self.b])

    def isdigit(self):
        return len(self.b) > 0 and and_(*[and_(x >= 48, x <= 57) for x in self.b])


def _check_byte(v):
    if type(v) is int and 0 <= v <= 255:
        return
    if not isinstance(v, int):
        raise TypeError(f"an integer is required, not {type(v)}")
    if or_(v < 0, v > 255):
        raise ValueError("byte must be in range(0, 256)")


def _slice(s):
    f = lambda x: None if x is None else (x if type(x) is int else int(x.__index__()))
    return slice(f(s.start), f(s.stop), f(s.step))


def select(seq, i):
    """seq[i] for a symbolic index: ITE over numeric elements, else None. Forks only for IndexError."""
    n = len(seq)
    if n == 0:
        raise IndexError("index out of range")
    if i.lo < -n or i.hi >= n:
        if not and_(i >= -n, i < n):
            raise IndexError("index out of range")
    vals = []
    for x in seq:
        v = _num(x)
        if v is None or isinstance(x, bool):
            return None
        vals.append(v)
    lo_i, hi_i = max(i.lo, -n), min(i.hi, n - 1)
    if hi_i - lo_i > 4096:
        return None
    los, his = zip(*[_rng(vals[k]) for k in range(lo_i, hi_i + 1)])
    lo, hi = min(los), max(his)
    if lo == hi:
        return lo
    w = _w(lo, hi)
    r = _term(vals[hi_i], w)
    iw = i.t.size()
    for k in range(lo_i, hi_i):
        r = z3.If(i.t == z3.BitVecVal(k, iw), _term(vals[k], w), r)
    return mk(r, lo, hi)


def concretise_bytes(x, why="symbolic bytes were fixed to sample values at a call that cannot be encoded"):
    """Concrete bytes: complete if each byte has few feasible values; else sampled and marked incomplete."""
    if type(x) is not SymBytes:
        return bytes(x)
    c = x.concrete()
    if c is not None:
        return c
    e = core.engine()
    e.fresh += 1
    key = (e.fresh, e.__dict__.get("scope", ()), tuple(e.taken))
    mem = e.__dict__.setdefault("cv_memory", {})
    out = []
    vals = mem.get(key)
    if vals is None:
        m = e.model()
        if m is None:
            raise Unsupported("no model to concretise bytes")
        vals = []
        for v in x.b:
            vals.append(v if type(v) is int else m.eval(v.t, model_completion=True).as_signed_long())
        mem[key] = vals
    conds = []
    for v, c in zip(x.b, vals):
        if type(v) is SymInt:
            conds.append(v.t == z3.BitVecVal(c, v.t.size()))
    cond = z3.simplify(z3.And(*conds))
    if not z3.is_true(cond):
        e.note_incomplete(why)
        e.concretised = True
        e.assume(cond)
    for i, v in enumerate(vals):
        out.append(v)
    return bytes(out)


# ----------------------------------------------------------------------------------------------- str
def mkstr(codes):
    if all(type(c) is int for c in codes):
        return "".join(map(chr, codes))
    return SymStr(codes)


def _codes(o):
    if type(o) is SymStr:
        return o.c
    if isinstance(o, str):
        return [ord(x) for x in o]
    return None


class SymStr:
    """str of known length with symbolic characters."""

    __slots__ = ("c",)

    @property
    def __class__(self):
        return str

    def __init__(self, c):
        self.c = list(c)

    def __len__(self):
        return len(self.c)

    def __bool__(self):
        return len(self.c) > 0

    def __iter__(self):
        return iter([mkstr([x]) for x in self.c])

    def __hash__(self):
        return hash(concretise_str(self))

    def __str__(self):
        return "<symstr>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<symstr>"

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.c[_slice(i)])
        return mkstr([self.c[i]])

    def __add__(self, o):
        e = _codes(o)
        return NotImplemented if e is None else mkstr(self.c + e)

    def __radd__(self, o):
        e = _codes(o)
        return NotImplemented if e is None else mkstr(e + self.c)

    def __mul__(self, n):
        return mkstr(self.c * int(n))

    __rmul__ = __mul__

    def __eq__(self, o):
        e = _codes(o)
        return False if e is None else seq_eq(self.c, e)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __lt__(self, o):
        return seq_lt(self.c, _codes(o))

    def __gt__(self, o):
        return seq_lt(_codes(o), self.c)

    def __le__(self, o):
        return not_(seq_lt(_codes(o), self.c))

    def __ge__(self, o):
        return not_(seq_lt(self.c, _codes(o)))

    def __contains__(self, o):
        return self.find(o) >= 0

    def _b(self):
        return SymBytes(self.c)

    def find(self, s, *a):
        return self._b().find(SymBytes(_codes(s)), *a)

    def rfind(self, s, *a):
        return self._b().rfind(SymBytes(_codes(s)), *a)

    def index(self, s, *a):
        r = self.find(s, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, s):
        return self._b().count(SymBytes(_codes(s)))

    def startswith(self, p, *a):
        if isinstance(p, tuple):
            return or_(*[self.startswith(x, *a) for x in p])
        return self._b().startswith(SymBytes(_codes(p)), *a)

    def endswith(self, p):
        if isinstance(p, tuple):
            return or_(*[self.endswith(x) for x in p])
        return self._b().endswith(SymBytes(_codes(p)))

    def removeprefix(self, p):
        return self[len(p) :] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[: len(self) - len(p)] if len(p) and self.endswith(p) else self

    def _sb(self, chars):
        return None if chars is None else SymBytes(_codes(chars))

    def strip(self, chars=None):
        return mkstr(self._b().strip(self._sb(chars)).b)

    def lstrip(self, chars=None):
        return mkstr(self._b().lstrip(self._sb(chars)).b)

    def rstrip(self, chars=None):
        return mkstr(self._b().rstrip(self._sb(chars)).b)

    def upper(self):
        return mkstr(self._b().upper().b)

    def lower(self):
        return mkstr(self._b().lower().b)

    def isdigit(self):
        return self._b().isdigit()

    def replace(self, a, b, count=-1):
        return mkstr(self._b().replace(SymBytes(_codes(a)), SymBytes(_codes(b)), count).b)

    def split(self, sep=None, maxsplit=-1):
        return [mkstr(x.b) for x in self._b().split(None if sep is None else SymBytes(_codes(sep)), maxsplit)]

    def join(self, it):
        out = []
        for n, x in enumerate(it):
            if n:
                out += self.c
            out += _codes(x)
        return mkstr(out)

    def zfill(self, n):
        return mkstr([48] * max(0, n - len(self.c)) + self.c)

    def ljust(self, n, fill=" "):
        return mkstr(self.c + [ord(fill)] * max(0, n - len(self.c)))

    def rjust(self, n, fill=" "):
        return mkstr([ord(fill)] * max(0, n - len(self.c)) + self.c)

    def encode(self, encoding="utf-8", errors="strict"):
        for x in self.c:
            if not (x < 128):
                return concretise_str(self).encode(encoding, errors)
        return SymBytes(self.c)

    def isascii(self):
        return and_(*[x < 128 for x in self.c])

    def casefold(self):
        return self.lower()


def concretise_str(x):
    if type(x) is not SymStr:
        return str(x)
    b = SymBytes(x.c)
    c = concretise_bytes(b, "a symbolic string was fixed to sample values at a call that cannot be encoded")
    return "".join(map(chr, c))


_SYMS = {SymInt, SymBool, SymBytes, SymStr}


def has_sym(x, depth=0):
    t = type(x)
    if t in _SYMS:
        return True
    if depth < 4:
        if t is tuple or t is list:
            return any(has_sym(y, depth + 1) for y in x)
    return False


def to_model_value(x, m):
    """Concrete value of x under model m."""
    t = type(x)
    if t is SymInt:
        return m.eval(x.t, model_completion=True).as_signed_long()
    if t.__name__ == "SymMod":
        return x._model(m)
    if t is SymBool:
        return z3.is_true(m.eval(x.t, model_completion=True))
    if t is SymBytes:
        return bytes(to_model_value(y, m) for y in x.b)
    if t is SymStr:
        return "".join(chr(to_model_value(y, m)) for y in x.c)
    if t is list:
        return [to_model_value(y, m) for y in x]
    if t is tuple:
        return tuple(to_model_value(y, m) for y in x)
    return x

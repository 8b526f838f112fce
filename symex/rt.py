"""Run-time helpers that the instrumented code calls (placed in builtins as _sx_*)."""

from __future__ import annotations

import builtins
import copy
import dataclasses
import functools
import hmac
import math
import operator
import struct
from types import BuiltinFunctionType, BuiltinMethodType, FunctionType, MethodType

from symex import core, values
from symex.modlin import SymMod
from symex.core import Unsupported
from symex.values import (
    SymBool,
    SymBytes,
    SymFrac,
    SymInt,
    SymStr,
    _SYMS,
    _codes,
    _elems,
    and_,
    concretise_bytes,
    concretise_int,
    concretise_str,
    has_sym,
    ite,
    mkstr,
    or_,
    select,
)

_MISSING = object()


# ------------------------------------------------------------------------------------------ dict / set
def _symkey(k):
    t = type(k)
    if t in _SYMS:
        return True
    if t is tuple:
        for x in k:
            if _symkey(x):
                return True
    if t.__name__ in ("OctetString", "Integer") and hasattr(k, "_value"):
        return type(k._value) in _SYMS
    return False


def _keq(a, b):
    """Equality of keys as a (symbolic) truth value."""
    ta, tb = type(a), type(b)
    if ta is tuple and tb is tuple:
        if len(a) != len(b):
            return False
        return and_(*[_keq(x, y) for x, y in zip(a, b)])
    if ta in _SYMS or tb in _SYMS:
        r = a == b
        return r
    try:
        return a == b
    except Exception:
        return False


class SDict(dict):
    """dict that also takes symbolic keys (lookups fork on equality with the stored keys)."""

    def __init__(self, *a, **k):
        self._sym = []
        dict.__init__(self)
        self.update(*a, **k)

    def __class_getitem__(cls, x):
        return dict[x]

    def _find(self, k):
        """(kind, position/key) of the entry equal to k, or None."""
        if self._sym or _symkey(k):
            for i, (k2, _) in enumerate(self._sym):
                if k2 is k or _keq(k2, k):
                    return ("s", i)
            if _symkey(k):
                for k2 in list(dict.keys(self)):
                    if _keq(k2, k):
                        return ("c", k2)
                return None
        if dict.__contains__(self, k):
            return ("c", k)
        return None

    def __contains__(self, k):
        return self._find(k) is not None

    def __getitem__(self, k):
        if not self._sym and not _symkey(k):
            return dict.__getitem__(self, k)
        f = self._find(k)
        if f is None:
            raise KeyError("<symbolic key>")
        return self._sym[f[1]][1] if f[0] == "s" else dict.__getitem__(self, f[1])

    def __setitem__(self, k, v):
        if not self._sym and not _symkey(k):
            return dict.__setitem__(self, k, v)
        f = self._find(k)
        if f is None:
            if _symkey(k):
                self._sym.append([k, v])
            else:
                dict.__setitem__(self, k, v)
        elif f[0] == "s":
            self._sym[f[1]][1] = v
        else:
            dict.__setitem__(self, f[1], v)

    def __delitem__(self, k):
        f = self._find(k)
        if f is None:
            raise KeyError(k if not _symkey(k) else "<symbolic key>")
        if f[0] == "s":
            del self._sym[f[1]]
        else:
            dict.__delitem__(self, f[1])

    def get(self, k, d=None):
        f = self._find(k)
        if f is None:
            return d
        return self._sym[f[1]][1] if f[0] == "s" else dict.__getitem__(self, f[1])

    def pop(self, k, *d):
        f = self._find(k)
        if f is None:
            if d:
                return d[0]
            raise KeyError(k if not _symkey(k) else "<symbolic key>")
        if f[0] == "s":
            return self._sym.pop(f[1])[1]
        return dict.pop(self, f[1])

    def popitem(self):
        if self._sym:
            return tuple(self._sym.pop())
        return dict.popitem(self)

    def setdefault(self, k, d=None):
        f = self._find(k)
        if f is None:
            self[k] = d
            return d
        return self[k]

    def update(self, *a, **k):
        if a:
            o = a[0]
            if hasattr(o, "keys"):
                for x in o.keys():
                    self[x] = o[x]
            else:
                for x, y in o:
                    self[x] = y
        for x, y in k.items():
            self[x] = y

    def __ior__(self, o):
        self.update(o)
        return self

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def clear(self):
        dict.clear(self)
        self._sym = []

    def copy(self):
        r = SDict()
        dict.update(r, self)
        r._sym = [list(x) for x in self._sym]
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        r = SDict()
        memo[id(self)] = r
        for k in dict.keys(self):
            dict.__setitem__(r, copy.deepcopy(k, memo), copy.deepcopy(dict.__getitem__(self, k), memo))
        r._sym = [[copy.deepcopy(k, memo), copy.deepcopy(v, memo)] for k, v in self._sym]
        return r

    def __len__(self):
        return dict.__len__(self) + len(self._sym)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        if not self._sym:
            return dict.__iter__(self)
        return iter(list(dict.keys(self)) + [k for k, _ in self._sym])

    def keys(self):
        return dict.keys(self) if not self._sym else list(self)

    def values(self):
        return dict.values(self) if not self._sym else list(dict.values(self)) + [v for _, v in self._sym]

    def items(self):
        return dict.items(self) if not self._sym else list(dict.items(self)) + [(k, v) for k, v in self._sym]

    def __eq__(self, o):
        if not self._sym and not (isinstance(o, SDict) and o._sym):
            return dict.__eq__(self, o)
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o or not (o[k] == v):
                return False
        return True

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None


class SSet(set):
    """set that also takes symbolic elements."""

    def __init__(self, it=()):
        self._sym = []
        set.__init__(self)
        for x in it:
            self.add(x)

    def __class_getitem__(cls, x):
        return set[x]

    def _find(self, k):
        if self._sym or _symkey(k):
            for i, k2 in enumerate(self._sym):
                if k2 is k or _keq(k2, k):
                    return ("s", i)
            if _symkey(k):
                for k2 in list(set.__iter__(self)):
                    if _keq(k2, k):
                        return ("c", k2)
                return None
        return ("c", k) if set.__contains__(self, k) else None

    def __contains__(self, k):
        return self._find(k) is not None

    def add(self, k):
        if not self._sym and not _symkey(k):
            return set.add(self, k)
        if self._find(k) is None:
            if _symkey(k):
                self._sym.append(k)
            else:
                set.add(self, k)

    def discard(self, k):
        f = self._find(k)
        if f:
            if f[0] == "s":
                del self._sym[f[1]]
            else:
                set.discard(self, f[1])

    def remove(self, k):
        f = self._find(k)
        if not f:
            raise KeyError("<key>")
        self.discard(k)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def clear(self):
        set.clear(self)
        self._sym = []

    def copy(self):
        return SSet(self)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SSet([copy.deepcopy(x, memo) for x in self])

    def __len__(self):
        return set.__len__(self) + len(self._sym)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return iter(list(set.__iter__(self)) + self._sym) if self._sym else set.__iter__(self)

    def union(self, *os):
        r = SSet(self)
        r.update(*os)
        return r

    def __or__(self, o):
        return self.union(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def difference(self, *os):
        r = SSet()
        for x in self:
            if not any(_in(x, o) for o in os):
                r.add(x)
        return r

    def __sub__(self, o):
        return self.difference(o)

    def intersection(self, *os):
        r = SSet()
        for x in self:
            if all(_in(x, o) for o in os):
                r.add(x)
        return r

    def __and__(self, o):
        return self.intersection(o)

    def symmetric_difference(self, o):
        return self.difference(o).union(SSet(o).difference(self))

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def issubset(self, o):
        return all(_in(x, o) for x in self)

    def __le__(self, o):
        return self.issubset(o)

    def issuperset(self, o):
        return all(_in(x, self) for x in o)

    def __ge__(self, o):
        return self.issuperset(o)

    def isdisjoint(self, o):
        return not any(_in(x, self) for x in o)

    def __eq__(self, o):
        if not self._sym and not getattr(o, "_sym", None):
            return set.__eq__(self, o)
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None


def _in(x, c):
    return bool(sx_in(x, c))


def sx_in(x, c):
    """x in c, as an or over symbolic equalities where possible (no fork)."""
    tc = type(c)
    if tc is SDict or tc is SSet or type(x) not in _SYMS:
        if tc in (set, frozenset, dict) and _symkey(x):
            for y in c:
                if _keq(x, y):
                    return True
            return False
        return x in c
    if tc in (list, tuple, set, frozenset, dict, range) or tc.__name__ in ("dict_keys", "dict_values"):
        if tc is range and type(x) is SymInt and c.step == 1:
            return and_(x >= c.start, x < c.stop)
        try:
            return or_(*[_b(x == y) for y in c])
        except Unsupported:
            return x in c
    if isinstance(c, str) and type(x) is SymStr and tc is str:
        return SymStr(_codes(c)).find(x) >= 0
    if tc in (bytes, bytearray):
        if type(x) is SymInt:
            return or_(*[x == y for y in c])
        return SymBytes(list(c)).find(x) >= 0
    return x in c


def _b(v):
    if v is NotImplemented:
        return False
    if type(v) is SymBool or isinstance(v, bool):
        return v
    return bool(v)


def sx_not_in(x, c):
    return values.not_(sx_in(x, c))


def sx_getitem(o, i):
    if type(i) in _SYMS:
        to = type(o)
        if type(i) is SymInt:
            if to is list or to is tuple:
                r = select(o, i)
                if r is not None:
                    return r
            elif to is bytes or to is bytearray:
                return select(list(o), i)
        if isinstance(o, dict) and to is not SDict and to.__getitem__ is dict.__getitem__:
            for k in list(o):
                if _keq(k, i):
                    return o[k]
            if hasattr(to, "__missing__"):
                raise Unsupported("symbolic key of a defaultdict")
            raise KeyError("<symbolic key>")
    elif type(i) is tuple and isinstance(o, dict) and type(o) is not SDict and _symkey(i):
        for k in list(o):
            if _keq(k, i):
                return o[k]
        raise KeyError("<symbolic key>")
    return o[i]


def sx_setitem(v, o, i):
    """o[i] = v"""
    if type(i) is SymInt:
        to = type(o)
        seq = o if to is list else (o.b if to is SymBytes and o.mut else None)
        if seq is not None and values._num(v) is not None and i.hi - i.lo <= 4096:
            n = len(seq)
            if i.lo < -n or i.hi >= n:
                if not and_(i >= -n, i < n):
                    raise IndexError("assignment index out of range")
            lo, hi = max(i.lo, -n), min(i.hi, n - 1)
            if to is SymBytes:
                values._check_byte(v)
            new = {}
            for k in range(lo, hi + 1):
                kk = k % n
                r = ite(i == k, v, new.get(kk, seq[kk]))
                if r is None:
                    break
                new[kk] = r
            else:
                for kk, r in new.items():
                    seq[kk] = r
                return
    o[i] = v


def sx_mkdict(pairs):
    return SDict(pairs)


def sx_mkset(it):
    return SSet(it)


def sx_dictmerge(*parts):
    r = SDict()
    for p in parts:
        r.update(p)
    return r


def sx_fstr(parts):
    """f-string: exact for symbolic strings, a placeholder for other symbolic values."""
    if not any(type(p) is SymStr for p in parts):
        return "".join(parts)
    out = []
    for p in parts:
        out += _codes(p)
    return mkstr(out)


def sx_fmt(v, conv, spec):
    if type(v) is SymStr and conv in (-1, 115) and not spec:
        return v
    if type(v) in _SYMS or type(v) is SymFrac:
        if type(v) is SymInt and conv == -1 and spec:
            r = _fmt_int(v, spec)
            if r is not None:
                return r
        return f"<{type(v).__name__}>"
    if conv == 114:
        v = repr(v)
    elif conv == 115:
        v = str(v)
    elif conv == 97:
        v = ascii(v)
    return format(v, spec)


def _fmt_int(v, spec):
    """format(v, '08b') and the like (zero padded, fixed width, value fits)."""
    import re

    m = re.fullmatch(r"0(\d+)([bxX])", spec)
    if not m or v.lo < 0:
        return None
    n, base = int(m.group(1)), m.group(2)
    per = 1 if base == "b" else 4
    if v.hi.bit_length() > n * per:
        return None
    out = []
    for i in range(n - 1, -1, -1):
        d = (v >> (per * i)) & ((1 << per) - 1)
        out.append(_digit(d, base))
    return mkstr(out)


def _digit(d, base):
    a = 55 if base == "X" else 87
    if type(d) is int:
        return d + 48 if d < 10 else d + a
    if d.hi < 10:
        return d + 48
    return ite(d < 10, d + 48, d + a)


def sx_ifmerge(c, fa, fb):
    """c ? fa() : fb() without forking when both sides are mergeable values; forks otherwise."""
    if type(c) is SymBool:
        e = core.engine()
        n = (len(e.taken), len(e.pc))
        try:
            a, b = fa(), fb()
            if (len(e.taken), len(e.pc)) == n:
                r = ite(c, a, b)
                if r is not None:
                    return r
        except core.PathEnd:
            raise
        except Exception:
            pass
    c = bool(c)
    try:
        return fa() if c else fb()
    except NameError:
        raise core.Unsupported("a variable assigned on one side of a condition only")


def _junction(fs, is_and):
    """`a and b` / `a or b` over pure operands; symbolic operands are combined without a fork."""
    acc = None
    n = len(fs)
    for i, f in enumerate(fs):
        if acc is None:
            v = f()
        else:
            e = core.engine()
            mark = (len(e.taken), len(e.pc))
            try:
                v = f()
                if (len(e.taken), len(e.pc)) != mark or not (type(v) is SymBool or isinstance(v, bool)):
                    raise _NoMerge
            except core.PathEnd:
                raise
            except Exception:
                # the operand may only be evaluated when the earlier ones decide so
                t = bool(acc)
                if t != is_and:
                    return t
                acc = None
                v = f()
        if type(v) is SymBool:
            acc = v if acc is None else (and_(acc, v) if is_and else or_(acc, v))
            if type(acc) is bool:
                if acc != is_and:
                    return acc
                acc = None if i < n - 1 else acc
            continue
        if acc is None:
            if i == n - 1 or bool(v) != is_and:
                return v
            continue
        # acc symbolic, v concrete bool
        if v != is_and:
            return v
    return acc


class _NoMerge(Exception):
    pass


def sx_and(*fs):
    return _junction(fs, True)


def sx_or(*fs):
    return _junction(fs, False)


def sx_issym(c):
    return type(c) is SymBool


def sx_not(x):
    if type(x) is SymBool:
        return values.not_(x)
    return not x


# ------------------------------------------------------------------------------------------ calls
def _c_int(*a, **k):
    if a:
        x = a[0]
        t = type(x)
        if t is SymInt and len(a) == 1:
            return x
        if t is SymBool:
            return x.as_int()
        if t is SymFrac:
            return x.__trunc__()
        if t in (SymStr, SymBytes):
            base = a[1] if len(a) > 1 else k.get("base", 10)
            return _parse_int(x, base)
        f = getattr(t, "__int__", None)
        if type(f) is FunctionType:
            r = f(x)
            if isinstance(r, int):
                return r
        f = getattr(t, "__index__", None)
        if type(f) is FunctionType and not hasattr(t, "__int__"):
            return f(x)
    return int(*a, **k)


def _parse_int(x, base):
    codes = x.c if type(x) is SymStr else x.b
    base = int(base)
    i = 0
    if not codes:
        raise ValueError("invalid literal for int()")
    if base not in (2, 8, 10, 16):
        raise Unsupported("int() of a symbolic string with an unusual base")
    r = 0
    for c in codes[i:]:
        d = 99
        if base == 16:
            isl = and_(c >= 97, c <= 102)
            isu = and_(c >= 65, c <= 70)
        isd = and_(c >= 48, c <= (47 + base if base < 10 else 57))
        if isd:
            d = values._remk(c - 48, 0, 9)
        elif base == 16 and isl:
            d = values._remk(c - 87, 10, 15)
        elif base == 16 and isu:
            d = values._remk(c - 55, 10, 15)
        else:
            raise ValueError("invalid literal for int()")
        r = r * base + d
    return r


def _c_bytes(*a, **k):
    return _mkbytes(a, k, False)


def _c_bytearray(*a, **k):
    return _mkbytes(a, k, True)


def _mkbytes(a, k, mut):
    real = bytearray if mut else bytes
    if not a or k or len(a) > 1:
        if a and type(a[0]) is SymStr:
            r = a[0].encode(*a[1:], **k)
            return SymBytes(_elems(r), mut)
        r = real(*a, **k)
        return SymBytes(list(r), True) if mut else r
    x = a[0]
    t = type(x)
    if t is SymBytes:
        return SymBytes(x.b, mut)
    if t is SymInt:
        x = concretise_int(x)
        r = real(x)
        return SymBytes(list(r), True) if mut else r
    if t is SymBool:
        x = int(x)
    if t in (bytes, bytearray):
        return SymBytes(list(x), True) if mut else bytes(x)
    f = getattr(t, "__bytes__", None)
    if type(f) is FunctionType:
        r = f(x)
        return SymBytes(_elems(r), mut) if (mut or type(r) is SymBytes) else r
    if isinstance(x, (int, str, memoryview)):
        r = real(x)
        return SymBytes(list(r), True) if mut else r
    if hasattr(t, "__index__") and not hasattr(t, "__iter__"):
        r = real(x)
        return SymBytes(list(r), True) if mut else r
    items = list(x)
    for v in items:
        if type(v) is SymInt or type(v) is SymBool:
            values._check_byte(v)
    items = [values._num(v) if type(v) is SymBool else v for v in items]
    if not mut and all(type(v) is int for v in items):
        return bytes(items)
    for v in items:
        if type(v) is not SymInt:
            values._check_byte(operator.index(v))
    items = [v if type(v) is SymInt else operator.index(v) for v in items]
    return SymBytes(items, mut)


def _c_str(*a, **k):
    if a:
        t = type(a[0])
        if t is SymStr:
            return a[0]
        if t is SymBytes and len(a) > 1:
            return a[0].decode(*a[1:], **k)
        f = getattr(t, "__str__", None)
        if type(f) is FunctionType and t not in _SYMS and len(a) == 1:
            r = f(a[0])
            if type(r) is SymStr:
                return r
    return str(*a, **k)


def _c_from_bytes(b, byteorder="big", *, signed=False):
    e = _elems(b)
    if e is None:
        e = list(b)
    if not any(type(x) is SymInt for x in e):
        return int.from_bytes(bytes(e), byteorder, signed=signed)
    import z3

    if byteorder == "little":
        e = list(reversed(e))
    parts = [z3.Extract(7, 0, values._term(x, 9)) if type(x) is SymInt else z3.BitVecVal(x, 8) for x in e]
    t = z3.Concat(*parts) if len(parts) > 1 else parts[0]
    n = 8 * len(e)
    if signed:
        return values.mk(t, -(1 << (n - 1)), (1 << (n - 1)) - 1)
    hi = 0
    for x in e:
        hi = hi * 256 + (x.hi if type(x) is SymInt else x)
    return values.mk(z3.ZeroExt(1, t), 0, hi)


_MM = {}


def _minmax(op):
    real = min if op == "lt" else max

    def f(*a, **k):
        if k:
            return real(*a, **k)
        items = list(a[0]) if len(a) == 1 else list(a)
        items = [x.exact() if type(x) is SymMod else x for x in items]
        if not any(type(x) is SymInt for x in items):
            return real(items)
        r = items[0]
        for x in items[1:]:
            r = two(r, x)
        return r

    def two(r, x):
        if type(r) is int and type(x) is int:
            return real(r, x)
        if type(r) is int:
            r, x = x, r
        if type(x) is int and type(r) is SymInt:
            # max(max(s, c), x) is max(s, max(c, x))
            k = _MM.get((op, r.t.get_id()))
            if k is not None:
                r, x = k[1], real(k[2], x)
        c = (x < r) if op == "lt" else (x > r)
        m = ite(c, x, r)
        if m is None:
            return x if c else r
        if type(x) is int and type(r) is SymInt and type(m) is SymInt:
            _MM[(op, m.t.get_id())] = (m.t, r, x)
        return m

    return f


def _c_pow(a, b, m=None):
    if type(a) is SymInt or type(b) is SymInt or type(m) is SymInt:
        return values.sym_pow(a, b, m)
    return pow(a, b) if m is None else pow(a, b, m)


def _c_range(*a):
    return range(*[concretise_int(x) if type(x) is SymInt else x for x in a])


def _c_any(it):
    for x in it:
        if x:
            return True
    return False


def _c_all(it):
    for x in it:
        if not x:
            return False
    return True


def _c_format(v, spec=""):
    return sx_fmt(v, -1, spec)


def _c_bin(v):
    if type(v) is SymInt:
        return _digits(v, 2, "0b", 1, "b")
    return bin(v)


def _c_hex(v):
    if type(v) is SymInt:
        return _digits(v, 16, "0x", 4, "x")
    return hex(v)


def _digits(v, base, prefix, per, b):
    neg = False
    if v < 0:
        neg = True
        v = -v
    if type(v) is int:
        return ("-" if neg else "") + (bin(v) if base == 2 else hex(v))
    n = 1
    while not (v < base**n):
        n += 1
    if neg:
        prefix = "-" + prefix
    out = [_digit((v >> (per * i)) & ((1 << per) - 1), b) for i in range(n - 1, -1, -1)]
    return mkstr([ord(c) for c in prefix] + out)


def _c_chr(v):
    return mkstr([v])


def _c_ord(c):
    if type(c) is SymStr and len(c) == 1:
        return c.c[0]
    if type(c) is SymBytes and len(c) == 1:
        return c.b[0]
    return ord(c)


def _c_fromhex(s):
    if type(s) is SymStr:
        out = []
        if len(s.c) % 2:
            raise ValueError("non-hexadecimal number found")
        for i in range(0, len(s.c), 2):
            out.append(_parse_int(SymStr(s.c[i : i + 2]), 16))
        return SymBytes(out)
    return bytes.fromhex(s)


def _c_compare_digest(a, b):
    ea, eb = _elems(a), _elems(b)
    if ea is not None and eb is not None:
        return values.seq_eq(ea, eb)
    return a == b


def _c_hash(x):
    return hash(x)


def _c_set(*a):
    return SSet(*a)


def _c_dict(*a, **k):
    return SDict(*a, **k)


def _c_frozenset(*a):
    if a:
        items = list(a[0])
        if any(_symkey(x) for x in items):
            return SSet(items)
        return frozenset(items)
    return frozenset()


def _c_field(*a, **k):
    f = k.get("default_factory")
    if f is dict:
        k["default_factory"] = SDict
    elif f is set:
        k["default_factory"] = SSet
    return dataclasses.field(*a, **k)


def _c_type(*a, **k):
    if len(a) == 1 and not k:
        t = type(a[0])
        if t in _SYMS:
            return a[0].__class__
        if t is SDict:
            return dict
        if t is SSet:
            return set
        return t
    return type(*a, **k)


def _c_issubclass(a, b):
    return issubclass(a, b)


def _c_isinstance(x, t):
    return isinstance(x, t)


def _c_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


def _c_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def _c_abs(x):
    return abs(x)


def _c_struct_pack(fmt, *args):
    if not any(type(x) in _SYMS for x in args):
        return struct.pack(fmt, *args)
    order = "little" if fmt[0] in "<=@" or fmt[0] not in ">!" else "big"
    body = fmt[1:] if fmt[0] in "<>=@!" else fmt
    out, args = [], list(args)
    sizes = {"B": (1, False), "b": (1, True), "H": (2, False), "h": (2, True), "I": (4, False), "i": (4, True), "L": (4, False), "Q": (8, False), "q": (8, True)}
    import re

    for n, c in re.findall(r"(\d*)(\D)", body):
        if c == "s":
            v = _elems(args.pop(0))[: int(n or 1)]
            out += v + [0] * (int(n or 1) - len(v))
            continue
        if c not in sizes:
            raise Unsupported("struct format " + fmt)
        for _ in range(int(n or 1)):
            v = args.pop(0)
            sz, sg = sizes[c]
            try:
                out += _elems(v.to_bytes(sz, order, signed=sg))
            except OverflowError as ex:
                raise struct.error(str(ex)) from ex
    return SymBytes(out)


def _c_struct_unpack(fmt, data):
    e = _elems(data)
    if type(data) is not SymBytes:
        return struct.unpack(fmt, data)
    order = "little" if fmt[0] in "<=@" or fmt[0] not in ">!" else "big"
    body = fmt[1:] if fmt[0] in "<>=@!" else fmt
    sizes = {"B": (1, False), "b": (1, True), "H": (2, False), "h": (2, True), "I": (4, False), "i": (4, True), "L": (4, False), "Q": (8, False), "q": (8, True)}
    import re

    if struct.calcsize(fmt) != len(e):
        raise struct.error("unpack requires a buffer of other size")
    out, p = [], 0
    for n, c in re.findall(r"(\d*)(\D)", body):
        if c == "s":
            out.append(SymBytes(e[p : p + int(n or 1)]))
            p += int(n or 1)
            continue
        for _ in range(int(n or 1)):
            sz, sg = sizes[c]
            out.append(_c_from_bytes(SymBytes(e[p : p + sz]), order, signed=sg))
            p += sz
    return tuple(out)


DISPATCH = {
    int: _c_int,
    bytes: _c_bytes,
    bytearray: _c_bytearray,
    str: _c_str,
    int.from_bytes: _c_from_bytes,
    min: _minmax("lt"),
    max: _minmax("gt"),
    pow: _c_pow,
    range: _c_range,
    format: _c_format,
    bin: _c_bin,
    hex: _c_hex,
    chr: _c_chr,
    ord: _c_ord,
    bytes.fromhex: _c_fromhex,
    hmac.compare_digest: _c_compare_digest,
    set: _c_set,
    dict: _c_dict,
    frozenset: _c_frozenset,
    dataclasses.field: _c_field,
    type: _c_type,
    sum: _c_sum,
    struct.pack: _c_struct_pack,
    struct.unpack: _c_struct_unpack,
}

# extra redirections (environment stubs) installed by harnesses: callable -> replacement
STUBS = {}

_SEQ_METHODS = {
    bytes: SymBytes,
    bytearray: SymBytes,
    str: SymStr,
}


def sx_call(f, *a, **k):
    t = type(f)
    if t is FunctionType or t is MethodType:
        if STUBS:
            g = STUBS.get(f)
            if g is not None:
                return g(*a, **k)
        if f is dataclasses.field:
            return _c_field(*a, **k)
        return f(*a, **k)
    if t is BuiltinMethodType or t is BuiltinFunctionType:
        g = DISPATCH.get(f) or STUBS.get(f)
        if g is not None:
            return g(*a, **k)
        s = f.__self__
        ts = type(s)
        if ts in _SEQ_METHODS:
            # method of a concrete bytes/str with symbolic arguments
            if f.__name__ == "join":
                items = list(a[0])
                if any(type(x) in _SYMS for x in items):
                    if ts is str:
                        return SymStr([ord(c) for c in s]).join(items)
                    return SymBytes(list(s), ts is bytearray).join(items)
                return f(items)
            if any(type(x) in _SYMS for x in a):
                if ts is str:
                    if f.__name__ == "format":
                        return f(*a, **k)
                    return getattr(SymStr([ord(c) for c in s]), f.__name__)(*a, **k)
                return getattr(SymBytes(list(s), ts is bytearray), f.__name__)(*a, **k)
        elif ts is int and f.__name__ == "to_bytes":
            return f(*[x.__index__() if type(x) is SymInt else x for x in a], **k)
        elif ts in (dict,) and a and _symkey(a[0]):
            if f.__name__ == "get":
                try:
                    return sx_getitem(s, a[0])
                except KeyError:
                    return a[1] if len(a) > 1 else k.get("default")
            raise Unsupported(f"dict.{f.__name__} of a plain dict with a symbolic key")
        elif ts in (set, frozenset) and a and _symkey(a[0]):
            raise Unsupported(f"set.{f.__name__} of a plain set with a symbolic element")
        elif f.__name__ in ("b64encode",):
            pass
        return f(*a, **k)
    if t is type:
        g = DISPATCH.get(f) or STUBS.get(f)
        if g is not None:
            return g(*a, **k)
        return f(*a, **k)
    if STUBS:
        try:
            g = STUBS.get(f)
        except TypeError:
            g = None
        if g is not None:
            return g(*a, **k)
    return f(*a, **k)


FUNCTIONS = set()


def sx_fn(name):
    FUNCTIONS.add(name)


def install():
    b = builtins
    b._sx_call = sx_call
    b._sx_in = sx_in
    b._sx_not_in = sx_not_in
    b._sx_getitem = sx_getitem
    b._sx_mkdict = sx_mkdict
    b._sx_mkset = sx_mkset
    b._sx_dictmerge = sx_dictmerge
    b._sx_fstr = sx_fstr
    b._sx_fmt = sx_fmt
    b._sx_ifmerge = sx_ifmerge
    b._sx_issym = sx_issym
    b._sx_not = sx_not
    b._sx_fn = sx_fn
    b._sx_setitem = sx_setitem
    b._sx_and = sx_and
    b._sx_or = sx_or

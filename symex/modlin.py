"""Integers known modulo q as polynomial forms of degree <= 2 in the symbolic inputs.

A SymMod is an integer congruent (mod q) to  const + sum lin[g].x_g + sum quad[g,h].x_g x_h , where x_g are vectors
of solver variables in [0, q).  `canon` means it is the residue in [0, q).  Sums, differences and products keep the
form; `% q` makes it canonical.  Comparing two canonical values reduces to a solver query over the difference of
their forms (which is empty, hence valid, when the forms coincide).
"""

from __future__ import annotations

import numpy as np
import z3

from symex import core, values
from symex.core import Unsupported


class Group:
    def __init__(self, name, n, q, lo=0, hi=None):
        self.name, self.n, self.q = name, n, q
        self.lo, self.hi = lo, q - 1 if hi is None else hi
        self.w = values._w(0, q - 1)
        self.vars = [z3.BitVec(f"i_{name}{i}", self.w) for i in range(n)]


class SymMod:
    # aff: (canonical residue b, m, k) when the value is exactly m*b + k
    __slots__ = ("q", "const", "lin", "quad", "canon", "aff")

    @property
    def __class__(self):
        return int

    def __init__(self, q, const, lin, quad, canon, aff=None):
        self.q, self.const, self.lin, self.quad, self.canon, self.aff = q, const, lin, quad, canon, aff

    def _affine(self, mul, add):
        b, m, k = (self, 1, 0) if self.canon else self.aff or (None, 0, 0)
        return None if b is None else (b, m * mul, k * mul + add)

    # --------------------------------------------------------------- arithmetic
    def _other(self, o):
        t = type(o)
        if t is SymMod:
            if o.q != self.q:
                raise Unsupported("two moduli in one expression")
            return o
        if t is int or t is bool:
            return int(o)
        if isinstance(o, int) and t is not values.SymInt:
            return int(o)
        raise Unsupported("a symbolic residue combined with another symbolic value")

    def _comb(self, o, sign):
        q = self.q
        if type(o) is int:
            return SymMod(q, (self.const + sign * o) % q, self.lin, self.quad, False, self._affine(1, sign * o))
        lin, quad = dict(self.lin), dict(self.quad)
        for g, v in o.lin.items():
            lin[g] = (lin[g] + sign * v) % q if g in lin else (sign * v) % q
        for g, v in o.quad.items():
            quad[g] = (quad[g] + sign * v) % q if g in quad else (sign * v) % q
        return SymMod(q, (self.const + sign * o.const) % q, lin, quad, False)

    def __add__(self, o):
        if type(o) is int and o == 0:
            return self
        if type(o) is values.SymInt:
            return self.exact() + o
        return self._comb(self._other(o), 1)

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is values.SymInt:
            return self.exact() - o
        return self._comb(self._other(o), -1)

    def __rsub__(self, o):
        if type(o) is values.SymInt:
            return o - self.exact()
        return (self * -1) + o

    def __neg__(self):
        return self * -1

    def __mul__(self, o):
        if type(o) is values.SymInt:
            return self.exact() * o
        o = self._other(o)
        q = self.q
        if type(o) is int:
            if o == 0:
                return 0
            if o == 1:
                return self
            c = o % q
            return SymMod(
                q,
                self.const * c % q,
                {g: v * c % q for g, v in self.lin.items()},
                {g: v * c % q for g, v in self.quad.items()},
                False,
                self._affine(o, 0) if o == -1 else None,
            )
        if self.quad or o.quad:
            raise Unsupported("a product of degree above 2")
        lin, quad = {}, {}
        for a, b in ((self, o), (o, self)):
            if b.const:
                for g, v in a.lin.items():
                    t = v * b.const % q
                    lin[g] = (lin[g] + t) % q if g in lin else t
        for g, v in self.lin.items():
            for k, w in o.lin.items():
                key, m = ((g, k), np.outer(v, w)) if g.name <= k.name else ((k, g), np.outer(w, v))
                if g is k:
                    m = np.triu(m) + np.triu(m.T, 1)
                m = m % q
                quad[key] = (quad[key] + m) % q if key in quad else m
        return SymMod(q, self.const * o.const % q, lin, quad, False)

    __rmul__ = __mul__

    def __mod__(self, m):
        if type(m) is int and m == self.q:
            return SymMod(self.q, self.const, self.lin, self.quad, True)
        if type(m) is int and self.q % m == 0 and m > 1:
            return SymMod(
                m,
                self.const % m,
                {g: v % m for g, v in self.lin.items()},
                {g: v % m for g, v in self.quad.items()},
                True,
            )
        return NotImplemented if not isinstance(m, int) else self.exact() % m

    def __and__(self, m):
        if type(m) is int and m >= 0 and (m & (m + 1)) == 0 and self.q % (m + 1) == 0:
            return self % (m + 1)
        return self.exact() & m

    __rand__ = __and__

    def __lshift__(self, k):
        return self * (1 << k)

    # --------------------------------------------------------------- leaving the domain
    def term(self):
        """Bit-vector term of the canonical residue."""
        q = self.q
        mons = []
        total = self.const
        for g, v in self.lin.items():
            for i in np.flatnonzero(v):
                c = int(v[i])
                mons.append((c, g.vars[i], None))
                total += c * (q - 1)
        for (g, k), m in self.quad.items():
            for i, j in zip(*np.nonzero(m)):
                c = int(m[i, j])
                mons.append((c, g.vars[i], k.vars[j]))
                total += c * (q - 1) ** 2
        if len(mons) > 3000:
            raise Unsupported("a form with too many monomials for the solver")
        w = max(total.bit_length(), q.bit_length()) + 1
        t = z3.BitVecVal(self.const, w)
        for c, x, y in mons:
            p = z3.BitVecVal(c, w) * values._fit(x, w)
            if y is not None:
                p = p * values._fit(y, w)
            t = t + p
        if not mons:
            return z3.BitVecVal(self.const % q, w)
        return z3.URem(t, z3.BitVecVal(q, w))

    def is_const(self):
        return not any(v.any() for v in self.lin.values()) and not any(v.any() for v in self.quad.values())

    def exact(self):
        if not self.canon:
            if self.aff is not None:
                b, m, k = self.aff
                return b.exact() * m + k
            raise Unsupported("the exact value of an unreduced residue")
        if self.is_const():
            return self.const % self.q
        if not self.quad and self.const == 0:
            nz = [(g, i) for g, v in self.lin.items() for i in np.flatnonzero(v)]
            if len(nz) == 1 and self.lin[nz[0][0]][nz[0][1]] == 1:
                return values.mk(nz[0][0].vars[nz[0][1]], 0, self.q - 1)
        return values.mk(values._fit(self.term(), values._w(0, self.q - 1)), 0, self.q - 1)

    def __eq__(self, o):
        if not self.canon:
            return self.exact() == (o.exact() if type(o) is SymMod else o)
        if isinstance(o, int):
            if type(o) is SymMod:
                if not o.canon:
                    return self.exact() == o.exact()
            elif type(o) is int:
                if not 0 <= o < self.q:
                    return False
            else:
                return self.exact() == o
            d = self._comb(o, -1)
            if d.is_const():
                return d.const % self.q == 0
            if self.q & (self.q - 1) == 0:
                w = self.q.bit_length() - 1
                return values.SymBool(z3.Extract(w - 1, 0, d.term()) == 0)
            t = d.term()
            return values.SymBool(t == 0)
        return False

    def __ne__(self, o):
        return values.not_(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of a symbolic residue")

    def __bool__(self):
        return bool(self != 0)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symmod>"

    def __format__(self, s):
        return "<symmod>"

    def __index__(self):
        return values.concretise_int(self.exact())

    __int__ = __index__

    def _model(self, m):
        if self.aff is not None:
            return self.aff[1] * self.aff[0]._model(m) + self.aff[2]
        r = self.const
        for g, v in self.lin.items():
            for i in np.flatnonzero(v):
                r += int(v[i]) * m.eval(g.vars[i], model_completion=True).as_long()
        for (g, k), mat in self.quad.items():
            for i, j in zip(*np.nonzero(mat)):
                r += (
                    int(mat[i, j])
                    * m.eval(g.vars[i], model_completion=True).as_long()
                    * m.eval(k.vars[j], model_completion=True).as_long()
                )
        return r % self.q


def _lift(name):
    def f(self, *a):
        return getattr(self.exact(), name)(*a)

    f.__name__ = name
    return f


for _n in "__abs__ __floordiv__ __rshift__ __or__ __xor__ __lt__ __le__ __gt__ __ge__ __rmod__ __invert__ __pow__ to_bytes bit_length".split():
    setattr(SymMod, _n, _lift(_n))


def vector(e, name, n, q, lo=0, hi=None):
    g = Group(name, n, q, lo, hi)
    out = []
    for i in range(n):
        v = np.zeros(n, dtype=np.int64)
        v[i] = 1
        out.append(SymMod(q, 0, {g: v}, {}, True))
        e.pc.append(z3.And(g.vars[i] >= g.lo, g.vars[i] <= g.hi))
    e.last_model = None
    return out


values._SYMS.add(SymMod)

"""Symbolic values for executing the real Python functions of /repo.

Numbers are mathematical reals / integers (z3 sorts Real / Int).  A branch on a symbolic
condition forks the path (by re-execution); every obligation is discharged per path.
"""
import math
import numbers
from fractions import Fraction

import numpy as np
import z3


class Infeasible(BaseException):
    """The current path has been cut (assumption unsatisfiable)."""


class Unsupported(BaseException):
    """The engine cannot handle a construct: the obligation stays undecided."""


class OutOfTime(BaseException):
    pass


# --------------------------------------------------------------------------- lifting of constants
PI = Fraction(math.pi)  # the float constant, read as an exact rational
S3 = z3.Real("SQRT3")
S2 = z3.Real("SQRT2")
S6 = S2 * S3
CONST_AXIOMS = [S3 * S3 == 3, S3 > z3.Q(17320508, 10000000), S3 < z3.Q(17320509, 10000000),
                S2 * S2 == 2, S2 > z3.Q(14142135, 10000000), S2 < z3.Q(14142136, 10000000)]
_lift_cache = {}


def _simple(f, maxden=64):
    fr = Fraction(f).limit_denominator(maxden)
    if fr != 0 and abs(float(fr) - f) <= 4e-15 * abs(f):
        return fr
    return None


def lift_float(f):
    """Idealise a float constant: p/q, p/q*pi, p/q*sqrt3, p/q*sqrt2, or the decimal it was written as."""
    f = float(f)
    if f in _lift_cache:
        return _lift_cache[f]
    if not math.isfinite(f):
        raise Unsupported(f"non-finite constant {f}")
    r = None
    if f == int(f) and abs(f) < 1e15:
        r = z3.RealVal(int(f))
    else:
        fr = _simple(f)
        if fr is not None and abs(f) < 1e9:
            r = z3.Q(fr.numerator, fr.denominator)
        else:
            rep = Fraction(repr(f))
            if len(repr(f)) < 14:  # a short decimal: written that way
                r = z3.Q(rep.numerator, rep.denominator)
            else:
                for base, const in ((math.pi, None), (math.sqrt(3), S3), (math.sqrt(2), S2), (math.sqrt(6), S6)):
                    fr = _simple(f / base)
                    if fr is not None:
                        if const is None:
                            q = PI * fr
                            r = z3.Q(q.numerator, q.denominator)
                        else:
                            r = z3.Q(fr.numerator, fr.denominator) * const
                        break
                if r is None:
                    r = z3.Q(rep.numerator, rep.denominator)
    _lift_cache[f] = r
    return r


def is_sym(x):
    return isinstance(x, (SymReal, SymInt, SymBool))


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def to_real(x):
    """z3 Real expression of a number (symbolic or concrete)."""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.RealVal(int(x))
    if isinstance(x, Fraction):
        return z3.Q(x.numerator, x.denominator)
    if isinstance(x, (float, np.floating)):
        return lift_float(x)
    if isinstance(x, np.ndarray) and x.size == 1:
        return to_real(x.reshape(-1)[0])
    raise Unsupported(f"cannot convert {type(x).__name__} to a real")


def to_bool(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, (SymReal, SymInt)):
        return x.e != 0
    if isinstance(x, np.ndarray) and x.size == 1:
        return to_bool(x.reshape(-1)[0])
    return z3.BoolVal(bool(x))


def _num(x):
    return isinstance(x, (numbers.Number, np.number, np.bool_, SymReal, SymInt, SymBool))


def _arr(x):
    return isinstance(x, (np.ndarray,))


PRINTED = []


def printed(text):
    """the values in a printed text: symbolic ones as printed, numbers as read"""
    import re

    for m in re.finditer("\u27e6([0-9]+)\u27e7|nan|[-+]?[0-9]+[.]?[0-9]*(?:[eE][-+]?[0-9]+)?", text):
        yield PRINTED[int(m.group(1))] if m.group(1) else float(m.group(0))


class _Base:
    __slots__ = ("e",)
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import shim

        return shim.SArr.__array_ufunc__(shim.mk([0]), ufunc, method, *inputs, **kw)

    def __hash__(self):
        return 0

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def copy(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def __repr__(self):
        return f"<{self.e}>"

    def __format__(self, spec):
        """printed text with a mark from which `printed` finds the value again (as precise as any number format)"""
        PRINTED.append(self)
        return f"\u27e6{len(PRINTED) - 1}\u27e7"


def _realop(op):
    def f(self, other):
        if not _num(other):
            return NotImplemented
        return SymReal(op(to_real(self), to_real(other)))

    return f


def _intish(x):
    return isinstance(x, (SymInt, int, np.integer)) and not isinstance(x, (bool, np.bool_))


def to_int(x):
    return x.e if isinstance(x, SymInt) else z3.IntVal(int(x))


def _both(intop, realop):
    def f(self, other):
        if not _num(other):
            return NotImplemented
        if _intish(self) and _intish(other):
            return SymInt(intop(to_int(self), to_int(other)))
        return SymReal(realop(to_real(self), to_real(other)))

    return f


def _cmp(op):
    def f(self, other):
        if other is None or isinstance(other, str):
            return NotImplemented
        if not _num(other):
            return NotImplemented
        if isinstance(other, (float, np.floating)) and not math.isfinite(other):
            return op(0.0, float(other))
        if _intish(self) and _intish(other):
            return SymBool(op(to_int(self), to_int(other)))
        return SymBool(op(to_real(self), to_real(other)))

    return f


import operator as _op


def _zneq(a, b):
    return a != b


class _Arith(_Base):
    __slots__ = ()

    def __add__(self, o):
        return _both(_op.add, _op.add)(self, o)

    def __radd__(self, o):
        if not _num(o):
            return NotImplemented
        return _both(lambda a, b: b + a, lambda a, b: b + a)(self, o)

    def __sub__(self, o):
        return _both(_op.sub, _op.sub)(self, o)

    def __rsub__(self, o):
        if not _num(o):
            return NotImplemented
        return _both(lambda a, b: b - a, lambda a, b: b - a)(self, o)

    def __mul__(self, o):
        return _both(_op.mul, _op.mul)(self, o)

    def __rmul__(self, o):
        if not _num(o):
            return NotImplemented
        return _both(lambda a, b: b * a, lambda a, b: b * a)(self, o)

    def __truediv__(self, o):
        if not _num(o):
            return NotImplemented
        return divide(self, o)

    def __rtruediv__(self, o):
        if not _num(o):
            return NotImplemented
        return divide(o, self)

    def __floordiv__(self, o):
        if not _num(o):
            return NotImplemented
        return floor_div(self, o)

    def __rfloordiv__(self, o):
        if not _num(o):
            return NotImplemented
        return floor_div(o, self)

    def __mod__(self, o):
        if not _num(o):
            return NotImplemented
        return modulo(self, o)

    def __rmod__(self, o):
        if not _num(o):
            return NotImplemented
        return modulo(o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return type(self)(-self.e) if not isinstance(self, SymBool) else SymReal(-to_real(self))

    def __pos__(self):
        return self

    def __abs__(self):
        c = CUR()
        if getattr(c, "merge", False):
            e = to_real(self)
            m = c.fresh_real("abs")
            em = to_real(m)
            c.define(z3.And(em >= 0, z3.Or(em == e, em == -e)))
            return m
        if bool(self >= 0):
            return self
        return -self

    absolute = __abs__

    __lt__ = _cmp(_op.lt)
    __le__ = _cmp(_op.le)
    __gt__ = _cmp(_op.gt)
    __ge__ = _cmp(_op.ge)

    def __eq__(self, o):
        r = _cmp(_op.eq)(self, o)
        return False if r is NotImplemented and not _arr(o) else r

    def __ne__(self, o):
        r = _cmp(_zneq)(self, o)
        return True if r is NotImplemented and not _arr(o) else r

    __hash__ = _Base.__hash__

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise Unsupported("float() of a symbolic value")

    def conjugate(self):
        return self

    # methods numpy's object loops call
    def sqrt(self):
        return sqrt(self)

    def cos(self):
        return trig(self)[0]

    def sin(self):
        return trig(self)[1]

    def tan(self):
        c, s = trig(self)
        return divide(s, c)

    def exp(self):
        raise Unsupported("exp")

    def floor(self):
        return floor(self)

    def ceil(self):
        return -floor(-self)

    def __floor__(self):
        return floor(self)

    def __ceil__(self):
        return -floor(-self)

    def sign(self):
        return sign(self)

    def square(self):
        return self * self

    def rint(self):
        raise Unsupported("rint")


class SymReal(_Arith):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __round__(self, n=None):
        """an integer at most one half away (either neighbour of a tie)"""
        if n is not None:
            raise Unsupported("round to digits")
        c = CUR()
        k = c.fresh_int("round")
        c.define(z3.And(2 * z3.ToReal(k) <= 2 * self.e + 1, 2 * z3.ToReal(k) >= 2 * self.e - 1))
        return SymInt(k)

    def astype(self, *_):
        return self


class SymInt(_Arith):
    __slots__ = ()

    def __init__(self, e):
        self.e = e

    def __index__(self):
        return CUR().concretise_int(self.e)

    def __int__(self):
        return CUR().concretise_int(self.e)

    def __round__(self, n=None):
        return self


class SymBool(_Arith):
    __slots__ = ()

    def __init__(self, e):
        self.e = e if isinstance(e, z3.BoolRef) else z3.BoolVal(bool(e))

    def __bool__(self):
        return CUR().branch(self.e)

    def __and__(self, o):
        if _arr(o):
            return NotImplemented
        return SymBool(z3.And(self.e, to_bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        if _arr(o):
            return NotImplemented
        return SymBool(z3.Or(self.e, to_bool(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if _arr(o):
            return NotImplemented
        return SymBool(z3.Xor(self.e, to_bool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, SymBool)):
            return SymBool(self.e == to_bool(o))
        return SymBool(to_real(self) == to_real(o))

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = _Base.__hash__

    def logical_not(self):
        return SymBool(z3.Not(self.e))

    def any(self):
        return self

    def all(self):
        return self

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))


# --------------------------------------------------------------------------- operations
_current = None


def CUR():
    if _current is None:
        raise Unsupported("no active symbolic execution")
    return _current


def set_current(c):
    global _current
    _current = c


def concrete_value(x):
    """Fraction if the expression is a numeral, else None."""
    if isinstance(x, (SymReal, SymInt)):
        e = z3.simplify(x.e)
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        if z3.is_int_value(e):
            return Fraction(e.as_long())
        return None
    if isinstance(x, (int, np.integer, bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        return Fraction(float(x))
    if isinstance(x, Fraction):
        return x
    return None


def divide(a, b):
    ea, eb = to_real(a), to_real(b)
    CUR().division(eb)
    return SymReal(ea / eb)


def floor(a):
    if isinstance(a, SymInt):
        return a
    return SymInt(CUR().floor_of(to_real(a)))


def floor_div(a, b):
    if _intish(a) and _intish(b):
        cb = concrete_value(b)
        if cb is None or cb <= 0:
            raise Unsupported("integer // with symbolic divisor")
        return SymInt(to_int(a) / to_int(b))
    return SymReal(z3.ToReal(floor(divide(a, b)).e))


def modulo(a, b):
    if _intish(a) and _intish(b):
        cb = concrete_value(b)
        if cb is not None and cb > 0:
            return SymInt(to_int(a) % to_int(b))
        # floor modulo with a positive symbolic divisor
        ctx = CUR()
        q, r = ctx.fresh_int("q"), ctx.fresh_int("r")
        ctx.division(to_real(b))
        ctx.define(z3.And(to_int(a) == q * to_int(b) + r, z3.If(to_int(b) > 0, z3.And(r >= 0, r < to_int(b)), z3.And(r <= 0, r > to_int(b)))))
        return SymInt(r)
    ea, eb = to_real(a), to_real(b)
    cb = concrete_value(b)
    ctx = CUR()
    ctx.division(eb)
    if not hasattr(ctx, "mods"):
        ctx.mods = {}
    key = (ctx._key(ea), ctx._key(eb)) if hasattr(ctx, "_key") else None
    if key in ctx.mods:
        return ctx.mods[key]
    k = ctx.fresh_int("mod")
    r = ea - eb * z3.ToReal(k)
    if key is not None:
        ctx.mods[key] = SymReal(r)
    if cb is not None:
        ctx.define(z3.And(r >= 0, r < eb) if cb > 0 else z3.And(r <= 0, r > eb))
    else:
        ctx.define(z3.If(eb > 0, z3.And(r >= 0, r < eb), z3.And(r <= 0, r > eb)))
    return SymReal(r)


def power(a, n):
    cn = concrete_value(n)
    if cn is not None and cn.denominator == 1:
        n = int(cn)
        if n == 0:
            return SymReal(z3.RealVal(1))
        base = a if n > 0 else divide(1, a)
        r = base
        for _ in range(abs(n) - 1):
            r = r * base
        return r
    if cn == Fraction(1, 2):
        return sqrt(a)
    return CUR().pow_of(a, n)


def sqrt(a):
    ca = concrete_value(a)
    if ca is not None and ca >= 0:
        return SymReal(lift_float(math.sqrt(ca)))
    return SymReal(CUR().sqrt_of(to_real(a)))


def sign(a):
    if bool(a > 0):
        return 1.0
    if bool(a < 0):
        return -1.0
    return 0.0


def trig(a):
    """(cos a, sin a)"""
    c, s = CUR().trig_of(to_real(a))
    return SymReal(c), SymReal(s)


def arctan2(y, x):
    return CUR().arctan2_of(y, x)


# --------------------------------------------------------------------------- polynomial normal form
class PolyOverflow(Exception):
    pass


LIMIT = 60000


class Poly:
    """Multivariate polynomial over Q: {monomial(tuple of (atom, power)): Fraction}."""

    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = t if t is not None else {}

    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def __add__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        return Poly({m: c * k for m, c in self.t.items()}) if k else Poly()

    def mul(self, o, red):
        r = {}
        if len(self.t) * len(o.t) > LIMIT * 20:
            raise PolyOverflow()
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = _mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
        if len(r) > LIMIT:
            raise PolyOverflow()
        return red(Poly(r))

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), Fraction(0))

    def key(self):
        return tuple(sorted(self.t.items(), key=lambda kv: repr(kv[0])))


def _mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, p in m2:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items()))


class Normaliser:
    """z3 real expression -> (numerator Poly, denominator factors {key: (Poly, power)})."""

    def __init__(self):
        self.rules = {}  # atom name -> (2, Poly): atom^2 := Poly
        self.memo = {}
        self.keep = []
        self.rules["SQRT3"] = Poly.const(3)
        self.rules["SQRT2"] = Poly.const(2)
        self.atoms = {"SQRT3": S3, "SQRT2": S2}
        self.opaque = {}

    def square_rule(self, atom, poly):
        self.rules[atom] = poly

    def reduce(self, p):
        todo = any(pw >= 2 and a in self.rules for m in p.t for a, pw in m)
        if not todo:
            return p
        out = Poly()
        for m, c in p.t.items():
            term = Poly({(): c})
            for a, pw in m:
                if a in self.rules and pw >= 2:
                    base = self.rules[a]
                    sq = pw // 2
                    for _ in range(sq):
                        term = term.mul(base, self.reduce)
                    if pw % 2:
                        term = term.mul(Poly.atom(a), lambda x: x)
                else:
                    term = term.mul(Poly({((a, pw),): Fraction(1)}), lambda x: x)
            out = out + term
        return self.reduce(out)

    def norm(self, e):
        k = e.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self._norm(e)
        self.memo[k] = r
        self.keep.append(e)
        return r

    def _atom(self, e):
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = e.decl().name()
        else:
            k = e.get_id()
            if k not in self.opaque:
                self.opaque[k] = f"@{len(self.opaque)}"
                self.keep.append(e)
            n = self.opaque[k]
        self.atoms[n] = e
        return (Poly.atom(n), {})

    def _mulden(self, d1, d2):
        d = dict(d1)
        for k, (p, n) in d2.items():
            d[k] = (p, n + (d[k][1] if k in d else 0))
        return d

    def _denpoly(self, d):
        r = Poly.const(1)
        for p, n in d.values():
            for _ in range(n):
                r = r.mul(p, self.reduce)
        return r

    def add(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if d1.keys() == d2.keys() and all(d1[k][1] == d2[k][1] for k in d1):
            return (n1 + n2, d1)
        lcm = dict(d1)
        for k, (p, n) in d2.items():
            lcm[k] = (p, max(n, lcm[k][1] if k in lcm else 0))
        m1 = {k: (p, n - (d1[k][1] if k in d1 else 0)) for k, (p, n) in lcm.items()}
        m2 = {k: (p, n - (d2[k][1] if k in d2 else 0)) for k, (p, n) in lcm.items()}
        num = n1.mul(self._denpoly(m1), self.reduce) + n2.mul(self._denpoly(m2), self.reduce)
        return (num, lcm)

    def mul(self, a, b):
        (n1, d1), (n2, d2) = a, b
        num = n1.mul(n2, self.reduce)
        return self._cancel(num, self._mulden(d1, d2))

    def _cancel(self, num, den):
        """Cancel single-atom denominators dividing every monomial of the numerator."""
        if num.is_zero():
            return (num, {})
        out = {}
        for k, (p, n) in den.items():
            if len(p.t) == 1:
                ((m, c),) = p.t.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0] not in self.rules:
                    a = m[0][0]
                    low = min(dict(mm).get(a, 0) for mm in num.t)
                    red = min(low, n)
                    if red:
                        nt = {}
                        for mm, cc in num.t.items():
                            d = dict(mm)
                            d[a] -= red
                            if not d[a]:
                                del d[a]
                            nt[tuple(sorted(d.items()))] = cc
                        num = Poly(nt)
                        n -= red
            elif n > 0:
                # cancel when numerator is a constant multiple of the factor
                q = _ratio(num, p)
                if q is not None:
                    num = Poly.const(q)
                    n -= 1
            if n:
                out[k] = (p, n)
        return (num, out)

    def inv(self, a):
        n, d = a
        if n.is_zero():
            raise Unsupported("division by zero constant")
        num = self._denpoly(d)
        den = {}
        # split the monomial content
        content = None
        for m in n.t:
            dm = dict(m)
            content = dm if content is None else {x: min(v, dm.get(x, 0)) for x, v in content.items()}
        content = {x: v for x, v in (content or {}).items() if v and x not in self.rules}
        rest = {}
        for m, c in n.t.items():
            dm = dict(m)
            for x, v in content.items():
                dm[x] -= v
                if not dm[x]:
                    del dm[x]
            rest[tuple(sorted(dm.items()))] = c
        rp = Poly(rest)
        for x, v in content.items():
            p = Poly.atom(x)
            den[p.key()] = (p, v)
        if rp.is_const():
            num = num.scale(1 / rp.const_value())
        else:
            lead = rp.t[max(rp.t, key=repr)]
            rp = rp.scale(1 / lead)
            num = num.scale(1 / lead)
            den[rp.key()] = (rp, 1)
        return self._cancel(num, den)

    def _norm(self, e):
        if z3.is_rational_value(e):
            return (Poly.const(Fraction(e.numerator_as_long(), e.denominator_as_long())), {})
        if z3.is_int_value(e):
            return (Poly.const(e.as_long()), {})
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = self.norm(e.arg(0))
            for i in range(1, e.num_args()):
                r = self.add(r, self.norm(e.arg(i)))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.norm(e.arg(0))
            for i in range(1, e.num_args()):
                n, d = self.norm(e.arg(i))
                r = self.add(r, (-n, d))
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.norm(e.arg(0))
            return (-n, d)
        if k == z3.Z3_OP_MUL:
            r = self.norm(e.arg(0))
            for i in range(1, e.num_args()):
                r = self.mul(r, self.norm(e.arg(i)))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.norm(e.arg(0)), self.inv(self.norm(e.arg(1))))
        if k == z3.Z3_OP_TO_REAL:
            return self.norm(e.arg(0))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(e.arg(1)):
            n = Fraction(e.arg(1).numerator_as_long(), e.arg(1).denominator_as_long())
            if n.denominator == 1 and 0 <= n <= 8:
                r = (Poly.const(1), {})
                for _ in range(int(n)):
                    r = self.mul(r, self.norm(e.arg(0)))
                return r
        return self._atom(e)

    def zero(self, e):
        """Is the rational expression identically zero (as a rational function modulo the square rules)?"""
        n, _ = self.norm(e)
        return self.reduce(n).is_zero()

    def poly_to_z3(self, p):
        s = z3.RealVal(0)
        for m, c in p.t.items():
            t = z3.Q(c.numerator, c.denominator)
            for a, pw in m:
                x = self.atoms[a]
                if x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                for _ in range(pw):
                    t = t * x
            s = s + t
        return z3.simplify(s)

    def diff(self, rf, atom):
        """d/d atom of (num, den); atoms are treated as independent."""
        n, d = rf

        def dp(p):
            r = {}
            for m, c in p.t.items():
                dm = dict(m)
                if atom in dm:
                    pw = dm[atom]
                    dm[atom] -= 1
                    if not dm[atom]:
                        del dm[atom]
                    mm = tuple(sorted(dm.items()))
                    r[mm] = r.get(mm, 0) + c * pw
            return Poly({m: c for m, c in r.items() if c})

        res = (dp(n), d)
        for k, (p, pw) in d.items():
            q = dp(p)
            if not q.is_zero():
                extra = {k: (p, 1)}
                t = (n.mul(q, self.reduce).scale(-pw), self._mulden(d, extra))
                res = self.add(res, t)
        return res

    def rf_to_z3(self, rf):
        n, d = rf
        return self.poly_to_z3(n) / self.poly_to_z3(self._denpoly(d)) if d else self.poly_to_z3(n)


def _ratio(a, b):
    """constant q with a == q*b, or None"""
    if a.t.keys() != b.t.keys():
        return None
    it = iter(a.t.items())
    m, c = next(it)
    q = c / b.t[m]
    for m, c in it:
        if c != q * b.t[m]:
            return None
    return q

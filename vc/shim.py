"""numpy / math / builtins stand-ins that are put into the globals of the /repo modules while a
function is executed symbolically.  They only change what happens when an argument is symbolic;
on concrete arguments they call the real thing.  The function bodies themselves are untouched."""
import builtins
import contextlib
import math
import sys

import numpy as np

from . import sym as S
from .sym import SymBool, SymInt, SymReal, Unsupported, has_sym, is_sym


def _u(x):
    """base-class view"""
    return x.view(np.ndarray) if isinstance(x, SArr) else x


def wrap(x):
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype == object:
        return x.view(SArr)
    return x


def _elementwise(f, *args):
    args = [np.asarray(_u(a), dtype=object) if not isinstance(a, np.ndarray) else _u(a) for a in args]
    b = np.broadcast(*args)
    out = np.empty(b.shape, dtype=object)
    flat = [f(*[v.item() if isinstance(v, np.generic) else v for v in vals]) for vals in b]
    out.reshape(-1)[:] = flat if flat else []
    for i, v in enumerate(flat):
        out.reshape(-1)[i] = v
    return out.view(SArr) if out.shape else flat[0]


def _cmpf(op):
    import operator

    return lambda a, b: getattr(operator, op)(a, b)


def _merged(a, b, greater):
    """max / min as a fresh value with its defining axiom instead of two paths (contracts with merge=True)"""
    c = S.CUR()
    if all(isinstance(v, (SymInt, int, np.integer)) and not isinstance(v, bool) for v in (a, b)):
        ea, eb = S.to_int(a), S.to_int(b)
        m = SymInt(c.fresh_int("max" if greater else "min"))
        em = m.e
    else:
        ea, eb = S.to_real(a), S.to_real(b)
        m = c.fresh_real("max" if greater else "min")
        em = S.to_real(m)
    c.define(S.z3.And(em >= ea, em >= eb, S.z3.Or(em == ea, em == eb)) if greater else S.z3.And(em <= ea, em <= eb, S.z3.Or(em == ea, em == eb)))
    return m


def _merge(a, b):
    return (is_sym(a) or is_sym(b)) and getattr(S.CUR(), "merge", False) and all(is_sym(v) or math.isfinite(v) for v in (a, b))


def s_max(a, b):
    if _merge(a, b):
        return _merged(a, b, True)
    if bool(a >= b):
        return a
    return b


def s_min(a, b):
    if _merge(a, b):
        return _merged(a, b, False)
    if bool(a <= b):
        return a
    return b


def s_sign(a):
    if is_sym(a):
        return S.sign(a)
    return float(np.sign(a))


def s_abs(a):
    return abs(a)


def s_isnan(a):
    return False if is_sym(a) else bool(np.isnan(a))


def _f(name, real):
    def g(a):
        return getattr(a, name)() if is_sym(a) else real(float(a))

    return g


def s_or(a, b):
    if is_sym(a) or is_sym(b):
        return SymBool(S.z3.Or(S.to_bool(a), S.to_bool(b)))
    return bool(a) or bool(b)


def s_and(a, b):
    if is_sym(a) or is_sym(b):
        return SymBool(S.z3.And(S.to_bool(a), S.to_bool(b)))
    return bool(a) and bool(b)


def s_not(a):
    return ~a if isinstance(a, SymBool) else not a


def s_arctan2(y, x):
    if is_sym(y) or is_sym(x):
        return S.arctan2(y, x)
    return math.atan2(float(y), float(x))


def s_pow(a, b):
    if is_sym(a) or is_sym(b):
        return S.power(a, b)
    return a ** b


def s_clip(x, lo, hi):
    fin = lambda v: v is not None and (is_sym(v) or math.isfinite(v))
    if fin(lo) and _merge(x, lo):
        x, lo = _merged(x, lo, True), None
    if fin(hi) and lo is None and _merge(x, hi):
        return _merged(x, hi, False)
    if lo is not None and not (isinstance(lo, (float, np.floating)) and lo == -math.inf) and bool(x < lo):
        x = lo
    if hi is not None and not (isinstance(hi, (float, np.floating)) and hi == math.inf) and bool(x > hi):
        x = hi
    return x


UF = {
    "less": _cmpf("lt"), "less_equal": _cmpf("le"), "greater": _cmpf("gt"), "greater_equal": _cmpf("ge"),
    "equal": _cmpf("eq"), "not_equal": _cmpf("ne"),
    "maximum": s_max, "minimum": s_min, "fmax": s_max, "fmin": s_min,
    "sign": s_sign, "absolute": s_abs, "fabs": s_abs,
    "sqrt": _f("sqrt", math.sqrt), "cos": _f("cos", math.cos), "sin": _f("sin", math.sin), "tan": _f("tan", math.tan),
    "floor": _f("floor", math.floor), "ceil": _f("ceil", math.ceil), "exp": _f("exp", math.exp),
    "square": lambda a: a * a, "arctan2": s_arctan2, "isnan": s_isnan,
    "isfinite": lambda a: True if is_sym(a) else bool(np.isfinite(a)),
    "isinf": lambda a: False if is_sym(a) else bool(np.isinf(a)),
    "logical_or": s_or, "logical_and": s_and, "logical_not": s_not, "bitwise_or": lambda a, b: a | b,
    "bitwise_and": lambda a, b: a & b, "invert": s_not,
    "power": s_pow, "float_power": s_pow, "remainder": lambda a, b: a % b, "mod": lambda a, b: a % b,
    "floor_divide": lambda a, b: a // b,
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b, "true_divide": lambda a, b: a / b, "negative": lambda a: -a,
    "positive": lambda a: a, "reciprocal": lambda a: 1 / a, "rint": lambda a: round(a),
    "deg2rad": lambda a: a * (math.pi / 180), "rad2deg": lambda a: a * (180 / math.pi),
    "clip": s_clip, "hypot": lambda a, b: S.sqrt(a * a + b * b) if is_sym(a) or is_sym(b) else math.hypot(a, b),
}


class SArr(np.ndarray):
    """object ndarray whose element-wise operations stay symbolic (comparisons give symbolic booleans)."""

    def __format__(self, spec):
        return "[" + " ".join(format(v, spec) for v in np.asarray(self.view(np.ndarray)).reshape(-1)) + "]"

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        name = ufunc.__name__
        kw.pop("dtype", None)
        kw.pop("casting", None)
        if method == "__call__":
            where = kw.pop("where", True)
            if name in UF:
                if where is not True:
                    raise Unsupported("ufunc where=")
                r = _elementwise(UF[name], *inputs)
            elif name in ("matmul", "vecdot"):
                r = s_matmul(*inputs)
            else:
                r = getattr(ufunc, method)(*[_u(i) for i in inputs], **kw)
                r = wrap(r)
            if out is not None:
                if out[0].dtype != object:
                    raise Unsupported("in-place symbolic operation on a numeric array")
                out[0].view(np.ndarray)[...] = r
                return out[0]
            return r
        if method == "reduce":
            axis = kw.get("axis", 0)
            keep = kw.get("keepdims", False)
            if name in UF:
                r = _reduce(UF[name], _u(inputs[0]), axis, {"add": 0, "multiply": 1, "logical_or": False, "logical_and": True}.get(name), keep)
            else:
                r = getattr(ufunc, method)(_u(inputs[0]), **{k: v for k, v in kw.items()})
            if out is not None:
                out[0][...] = r
                return out[0]
            return wrap(r)
        if method == "accumulate" and name in UF:
            a = _u(inputs[0])
            o = []
            for v in a:
                o.append(v if not o else UF[name](o[-1], v))
            return mk(o)
        if method == "outer":
            a, b = np.asarray(_u(inputs[0])), np.asarray(_u(inputs[1]))
            return _elementwise(UF[name], a.reshape(a.shape + (1,) * b.ndim), b)
        raise Unsupported(f"ufunc {name}.{method}")

    def __array_function__(self, func, types, args, kwargs):
        h = FUNCS.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        args = _strip(args)
        kwargs = {k: _strip(v) for k, v in kwargs.items()}
        r = func(*args, **kwargs)
        return _rewrap(r)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __getitem__(self, idx):
        return super().__getitem__(_conc_index(idx))

    _whole = False  # made of whole numbers only: numpy cuts the fraction off whatever is written into it

    def __setitem__(self, idx, v):
        if self._whole:
            v = _cut(v)
        return super().__setitem__(_conc_index(idx), v)

    def astype(self, dtype=None, *a, **k):
        kind = "f" if dtype in (None, symfloat, float) else "i" if dtype is symint else np.dtype(dtype).kind
        if kind == "b":
            if not has_sym(self):
                return np.asarray(_u(self), dtype=bool)
            return _elementwise(lambda v: (v if isinstance(v, SymBool) else v != 0) if is_sym(v) else bool(v), self)
        if kind in "iu":
            if not has_sym(self):
                return np.asarray(_u(self)).astype(int)
            if any(isinstance(v, SymReal) for v in _u(self).reshape(-1)):
                raise Unsupported("astype(int) of a symbolic real array")
        return self.copy()

    def any(self, *a, **k):
        return FUNCS["any"](self, *a, **k)

    def all(self, *a, **k):
        return FUNCS["all"](self, *a, **k)

    def sum(self, axis=None, **k):
        return FUNCS["sum"](self, axis=axis)

    def prod(self, axis=None, **k):
        return FUNCS["prod"](self, axis=axis)

    def max(self, axis=None, **k):
        return FUNCS["amax"](self, axis=axis)

    def min(self, axis=None, **k):
        return FUNCS["amin"](self, axis=axis)

    def clip(self, lo=None, hi=None, *a, min=None, max=None, **k):
        return FUNCS["clip"](self, lo if min is None else min, hi if max is None else max)

    def dot(self, o):
        return s_matmul(self, o)

    def mean(self, *a, **k):
        return FUNCS["sum"](self) / self.size

    def round(self, *a, **k):
        raise Unsupported("round")

    def fill(self, v):
        self[...] = v


def _conc_index(idx):
    if isinstance(idx, tuple):
        return tuple(_conc_index(i) for i in idx)
    if isinstance(idx, SymBool):
        return bool(idx)
    if isinstance(idx, SymInt):
        return idx.__index__()
    if isinstance(idx, (list, np.ndarray)) and has_sym(idx if not isinstance(idx, SArr) else _u(idx)):
        a = np.asarray(_u(idx) if isinstance(idx, np.ndarray) else np.array(idx, dtype=object))
        f = [bool(v) if isinstance(v, (SymBool, bool, np.bool_)) else int(v) for v in a.reshape(-1)]
        return np.array(f).reshape(a.shape)
    if isinstance(idx, SArr):
        a = _u(idx)
        vals = [v for v in a.reshape(-1)]
        if all(isinstance(v, (bool, np.bool_)) for v in vals):
            return np.array(vals, dtype=bool).reshape(a.shape)
        return np.array([int(v) for v in vals], dtype=int).reshape(a.shape)
    return idx


def _strip(x):
    if isinstance(x, SArr):
        return _u(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_strip(v) for v in x)
    return x


def _rewrap(r):
    if isinstance(r, (list, tuple)):
        return type(r)(_rewrap(v) for v in r)
    return wrap(r)


def _reduce(f, a, axis, init, keep=False):
    a = np.asarray(a, dtype=object)
    if axis is None or a.ndim <= 1:
        vals = list(a.reshape(-1))
        if not vals:
            if init is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return init
        r = vals[0]
        if isinstance(init, bool) and not is_sym(r):
            r = bool(r)
        for v in vals[1:]:
            r = f(r, v)
        if keep:
            o = np.empty((1,) * a.ndim, dtype=object)
            o.reshape(-1)[0] = r
            return o.view(SArr)
        return r
    if isinstance(axis, tuple):
        raise Unsupported("tuple axis")
    b = np.moveaxis(a, axis, -1)
    o = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(*b.shape[:-1]):
        o[i] = _reduce(f, b[i], None, init)
    return o.view(SArr)


def s_matmul(a, b):
    a, b = np.asarray(_u(a)), np.asarray(_u(b))
    return wrap(np.matmul(a.astype(object), b.astype(object)))


def mk(x):
    """SArr from nested lists"""
    a = np.array(x, dtype=object)
    return a.view(SArr)


def _cut(v):
    if isinstance(v, (list, tuple, np.ndarray)):
        return _elementwise(_cut, v)
    if isinstance(v, SymReal):
        e = S.to_real(v)
        return SymInt(S.z3.If(e >= 0, S.z3.ToInt(e), -S.z3.ToInt(-e)))
    return v if is_sym(v) else int(v)


def vec(xs):
    a = np.empty(len(xs), dtype=object)
    for i, v in enumerate(xs):
        a[i] = v
    return a.view(SArr)


FUNCS = {}


def func(name):
    def d(f):
        FUNCS[name] = f
        return f

    return d


def _fsum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _reduce(lambda x, y: x + y, _u(np.asarray(a, dtype=object)), axis, 0, keepdims)


FUNCS["sum"] = _fsum
FUNCS["prod"] = lambda a, axis=None, **k: _reduce(lambda x, y: x * y, _u(np.asarray(a, dtype=object)), axis, 1)
FUNCS["any"] = lambda a, axis=None, **k: _reduce(s_or, _u(np.asarray(a, dtype=object)), axis, False)
FUNCS["all"] = lambda a, axis=None, **k: _reduce(s_and, _u(np.asarray(a, dtype=object)), axis, True)
FUNCS["amax"] = FUNCS["max"] = lambda a, axis=None, **k: _reduce(s_max, _u(np.asarray(a, dtype=object)), axis, None)
FUNCS["amin"] = FUNCS["min"] = lambda a, axis=None, **k: _reduce(s_min, _u(np.asarray(a, dtype=object)), axis, None)


@func("clip")
def f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if min is None else min
    hi = a_max if max is None else max
    if lo is None:
        lo = -math.inf
    if hi is None:
        hi = math.inf
    r = _elementwise(s_clip, a, lo, hi)
    if out is not None:
        out[...] = r
        return out
    return r


@func("where")
def f_where(c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where(cond)")
    return _elementwise(lambda x, p, q: p if bool(x) else q, c, a, b)


@func("select")
def f_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = f_where(c, v, r)
    return r


def _nan_reduce(f):
    def g(a, axis=None, **k):
        vals = [v for v in np.asarray(_u(a), dtype=object).reshape(-1) if not s_isnan(v)]
        if axis is not None or not vals:
            raise Unsupported("nanmin/nanmax along an axis or without any number")
        return _reduce(f, np.array(vals, dtype=object), None, None)

    return g


FUNCS["nanmin"], FUNCS["nanmax"] = _nan_reduce(s_min), _nan_reduce(s_max)


def _arg(greater):
    def f(a, axis=None, **k):
        vals = list(np.asarray(_u(a)).reshape(-1))
        best = 0
        for i, v in enumerate(vals[1:], 1):
            if bool(v > vals[best] if greater else v < vals[best]):
                best = i
        return best

    return f


FUNCS["argmin"], FUNCS["argmax"] = _arg(False), _arg(True)


@func("dot")
def f_dot(a, b, out=None):
    return s_matmul(a, b) if np.ndim(a) and np.ndim(b) else a * b


@func("zeros_like")
def f_zl(a, dtype=None, **k):
    o = np.empty(np.shape(a), dtype=object)
    o.fill(False if dtype in (bool, np.bool_) else 0)
    return o.view(SArr)


@func("ones_like")
def f_ol(a, dtype=None, **k):
    o = np.empty(np.shape(a), dtype=object)
    o.fill(1)
    return o.view(SArr)


@func("full_like")
def f_fl(a, v, **k):
    o = np.empty(np.shape(a), dtype=object)
    o.fill(v)
    return o.view(SArr)


@func("mean")
def f_mean(a, axis=None, **k):
    return _fsum(a, axis) / np.size(a)


@func("copyto")
def f_copyto(dst, src, **k):
    dst[...] = src


@func("isclose")
def f_isclose(*a, **k):
    raise Unsupported("isclose")


@func("allclose")
def f_allclose(*a, **k):
    raise Unsupported("allclose")


@func("array_equal")
def f_ae(a, b, **k):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return FUNCS["all"](_elementwise(lambda x, y: x == y, a, b))


@func("linalg_norm")
def f_norm(a, ord=None, axis=None, **k):
    if ord not in (None, 2) or axis is not None:
        raise Unsupported("norm")
    return S.sqrt(_fsum([v * v for v in np.asarray(_u(a)).reshape(-1)]))


FUNCS["norm"] = f_norm


@func("linspace")
def f_linspace(a, b, num=50, endpoint=True, **k):
    n = int(num)
    d = (n - 1) if endpoint else n
    return vec([a + (b - a) * i / d if i else a + 0 for i in range(n)])


@func("round")
def f_round(a, *x, **k):
    return _elementwise(lambda v: round(v), a)


@func("cumsum")
def f_cumsum(a, *x, **k):
    o = []
    for v in np.asarray(_u(a)).reshape(-1):
        o.append(v if not o else o[-1] + v)
    return vec(o)


def _is_float_dtype(d):
    return d is None or d is float or d is symfloat or d in (np.float64, np.float32, "float", object)


class _Linalg:
    norm = staticmethod(lambda a, *x, **k: f_norm(a, *x, **k) if has_sym(np.asarray(a)) else np.linalg.norm(a, *x, **k))

    def __getattr__(self, n):
        return getattr(np.linalg, n)


def CUR_concretise(v):
    return S.CUR().concretise_int(S.to_int(v))


class SymNumpy:
    """stands for the module object ``np`` in the globals of the code under proof"""

    linalg = _Linalg()
    ndarray = np.ndarray

    def __getattr__(self, name):
        real = getattr(np, name)
        if name in UF and isinstance(real, np.ufunc):
            return _UfuncShim(name, real)
        if name in FUNCS and callable(real):
            f = FUNCS[name]

            def g(*a, **k):
                if any(has_sym(x) or isinstance(x, SArr) for x in a) or any(has_sym(v) for v in k.values()):
                    return f(*a, **k)
                k = {n: (float if v is symfloat else v) for n, v in k.items()}
                return real(*a, **k)

            return g
        return real

    def roots(self, p):
        """contract of the root finder, given by the contract under proof (np_roots)"""
        hook = getattr(S.CUR(), "np_roots", None) if S._current is not None else None
        if hook is None or not has_sym(np.asarray(_u(p) if isinstance(p, np.ndarray) else np.array(p, dtype=object))):
            return np.roots(p)
        return hook(p)

    def angle(self, z, deg=False):
        if isinstance(z, SymComplex) and not deg:
            return s_arctan2(z.imag, z.real)
        return np.angle(z, deg)

    def real(self, z):
        return z.real if isinstance(z, SymComplex) else np.real(z)

    def imag(self, z):
        return z.imag if isinstance(z, SymComplex) else np.imag(z)

    # constructors: object dtype, so that symbolic values can be stored
    def zeros(self, shape, dtype=None, **k):
        if not _is_float_dtype(dtype):
            return np.zeros(shape, dtype=dtype, **k)
        o = np.empty(shape, dtype=object)
        o.fill(0.0)
        return o.view(SArr)

    def ones(self, shape, dtype=None, **k):
        if not _is_float_dtype(dtype):
            return np.ones(shape, dtype=dtype, **k)
        o = np.empty(shape, dtype=object)
        o.fill(1.0)
        return o.view(SArr)

    def empty(self, shape, dtype=None, **k):
        return self.zeros(shape, dtype)

    def full(self, shape, fill_value, dtype=None, **k):
        o = np.empty(shape, dtype=object)
        o.fill(fill_value)
        return o.view(SArr)

    rolled = []
    generic = None  # (symbolic length, symbolic index): vectors of that length are followed at that one index

    def linspace(self, start, stop, num=50, **k):
        if is_sym(num) and S.concrete_value(num) is not None:
            num = int(S.concrete_value(num))
        if is_sym(num):
            if self.generic is None or k:
                raise Unsupported("linspace of symbolic length")
            n, i = self.generic
            if bool(num == 1):
                return vec([start])
            return vec([start + i * S.CUR().quotient(stop - start, num - 1)])
        if has_sym(start) or has_sym(stop):
            n = num - 1 if k.get("endpoint", True) else num
            return vec([start + j * ((stop - start) / n) for j in range(num)] if num > 1 else [start])
        return np.linspace(start, stop, num, **k)

    def roll(self, a, shift, axis=None):
        if isinstance(a, SArr) and self.generic is not None:
            self.rolled.append(shift)
            return a  # the followed element moves to another index
        if is_sym(shift):
            if np.size(a) == 1:
                return a
            shift = CUR_concretise(shift % int(np.size(a)))
        return np.roll(_u(a), shift, axis).view(SArr) if isinstance(a, SArr) else np.roll(a, shift, axis)

    def zeros_like(self, a, dtype=None, **k):
        if hasattr(a, "ghost_zeros_like"):
            return a.ghost_zeros_like()
        if not _is_float_dtype(dtype):
            return np.zeros_like(_u(a) if isinstance(a, np.ndarray) else a, dtype=dtype)
        a_ = np.asarray(a)
        if dtype is None and a_.dtype.kind in "iub":
            return np.zeros_like(a_)
        z = self.zeros(a_.shape)
        if dtype is None and isinstance(a, SArr) and a._whole:
            z._whole = True
        return z

    def ones_like(self, a, dtype=None, **k):
        return self.ones(np.shape(a))

    def array(self, x, dtype=None, copy=True, **k):
        if dtype is symfloat:
            dtype = float
        if has_sym(x) or isinstance(x, SArr) or _nested_sarr(x):
            if dtype is not None and not _is_float_dtype(dtype):
                return np.array(_strip(x), dtype=dtype)
            a = np.array(_strip(x), dtype=object).view(SArr)
            a._whole = dtype is None and (x._whole if isinstance(x, SArr) else a.ndim > 0 and has_sym(a) and all(isinstance(v, (SymInt, int, np.integer)) and not isinstance(v, (bool, np.bool_)) for v in a.reshape(-1)))
            return a
        a = np.array(x, dtype=dtype, **k)
        if a.dtype.kind == "f":  # may later receive symbolic values
            return a.astype(object).view(SArr)
        return a

    def asarray(self, x, dtype=None, **k):
        if isinstance(x, SArr):
            return x
        return self.array(x, dtype=dtype)

    def copy(self, x, **k):
        return self.array(x)

    def append(self, a, v, axis=None):
        if has_sym(a) or has_sym(v):
            return vec(list(np.asarray(_u(a)).reshape(-1)) + list(np.asarray(_u(v)).reshape(-1)))
        return np.append(a, v, axis)

    def concatenate(self, xs, axis=0, **k):
        xs = [self.array(x) if not isinstance(x, np.ndarray) else x for x in xs]
        if any(isinstance(x, SArr) for x in xs):
            return np.concatenate([np.asarray(_u(x)).astype(object) for x in xs], axis=axis).view(SArr)
        return np.concatenate(xs, axis=axis, **k)

    def matmul(self, a, b, **k):
        if has_sym(a) or has_sym(b) or isinstance(a, SArr) or isinstance(b, SArr):
            return s_matmul(a if isinstance(a, np.ndarray) else self.array(a), b if isinstance(b, np.ndarray) else self.array(b))
        return np.matmul(a, b, **k)

    def dot(self, a, b):
        return self.matmul(a, b)


def _nested_sarr(x):
    if isinstance(x, (list, tuple)):
        return any(isinstance(v, SArr) or _nested_sarr(v) for v in x)
    return False


class _UfuncShim:
    def __init__(self, name, real):
        self.name, self.real = name, real

    def __call__(self, *a, **k):
        if len(a) == 1 and isinstance(a[0], SymComplex) and self.name == "absolute":
            return abs(a[0])
        if any(has_sym(x) or isinstance(x, SArr) for x in a):
            out = k.pop("out", None)
            r = _elementwise(UF[self.name], *[x if isinstance(x, np.ndarray) or is_sym(x) or not isinstance(x, (list, tuple)) else np.array(x, dtype=object) for x in a])
            if out is not None:
                out[...] = r
                return out
            return r
        return self.real(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)


class SymMath:
    pi = math.pi

    def __getattr__(self, name):
        real = getattr(math, name)
        if name in ("cos", "sin", "tan", "sqrt", "floor", "ceil", "exp"):
            def g(x):
                if isinstance(x, np.ndarray) and x.size == 1:
                    x = x.reshape(-1)[0]
                return getattr(x, name)() if is_sym(x) else real(x)
            return g
        if name == "atan2":
            return s_arctan2
        if name == "fabs":
            return abs
        if name in ("isnan",):
            return s_isnan
        if name == "pow":
            return s_pow
        if name == "hypot":
            return UF["hypot"]
        return real


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, float)


class symfloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if builtins.isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if builtins.isinstance(x, SymReal):
            return x
        if builtins.isinstance(x, (SymInt, SymBool)):
            return SymReal(S.to_real(x))
        return float(x)


class SymComplex:
    """complex number with symbolic real and imaginary part"""

    __array_priority__ = 1000

    def __init__(self, re=0.0, im=0.0):
        self.real, self.imag = re, im

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, (complex, np.complexfloating)):
            return SymComplex(x.real, x.imag)
        return SymComplex(x, 0.0)

    def __add__(self, o):
        o = self.of(o)
        return SymComplex(self.real + o.real, self.imag + o.imag)

    __radd__ = __add__

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __sub__(self, o):
        return self + (-self.of(o))

    def __rsub__(self, o):
        return self.of(o) + (-self)

    def __mul__(self, o):
        if not isinstance(o, (SymComplex, complex, np.complexfloating)):
            return SymComplex(self.real * o, self.imag * o)
        o = self.of(o)
        return SymComplex(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not isinstance(o, (SymComplex, complex, np.complexfloating)):
            return SymComplex(self.real / o, self.imag / o)
        o = self.of(o)
        return self * o.conjugate() / (o.real * o.real + o.imag * o.imag)

    def __rtruediv__(self, o):
        return self.of(o) / self

    def conjugate(self):
        return SymComplex(self.real, -self.imag)

    def __abs__(self):
        return SymReal(S.to_real(self.real * self.real + self.imag * self.imag)).sqrt()

    def __eq__(self, o):
        o = self.of(o)
        return s_and(self.real == o.real, self.imag == o.imag)

    __hash__ = None


class symcomplex:
    def __new__(cls, re=0.0, im=0.0):
        return SymComplex.of(re) + SymComplex(0.0, im) if isinstance(re, (SymComplex, complex)) else SymComplex(re, im)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (int, SymInt))


class symint(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if builtins.isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        if builtins.isinstance(x, SymInt):
            return x
        if builtins.isinstance(x, SymReal):
            if bool(x >= 0):
                return S.floor(x)
            return -S.floor(-x)
        return int(x, *a)


from gymnasium.spaces import Box as _Box, Space as _Space  # noqa: E402


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, type)

    def __subclasscheck__(cls, c):
        return issubclass(c, type)


class symtype(metaclass=_TypeMeta):
    def __new__(cls, *a):
        if len(a) != 1:
            return type(*a)
        x = a[0]
        if isinstance(x, SymReal) or type(x) is float:
            return symfloat
        if isinstance(x, SymInt) or type(x) is int:
            return symint
        if isinstance(x, SArr):
            return np.ndarray
        if type(x) in (_Box, SymBoxSpace):
            return symBox
        return type(x)


def _plain(x):
    """float array when every entry is concrete"""
    if isinstance(x, np.ndarray) and x.dtype == object:
        vals = []
        for v in np.asarray(_u(x)).reshape(-1):
            c = S.concrete_value(v) if is_sym(v) else v
            if c is None:
                return None
            vals.append(float(c))
        return np.array(vals, dtype=float).reshape(x.shape)
    return x


class SymBoxSpace(_Space):
    """Box with symbolic bounds (only low/high/shape/contains are available)"""

    def __init__(self, low, high, shape=None, dtype=None, seed=None):
        if shape is None:
            shape = np.shape(low) or np.shape(high)
        def full(v):
            if isinstance(v, np.ndarray) and v.shape:
                return v.astype(object).view(SArr) if not isinstance(v, SArr) else v.copy()
            o = np.empty(shape, dtype=object)
            o.fill(v)
            return o.view(SArr)
        _Space.__init__(self, tuple(shape), np.float64)
        self.low, self.high = full(low), full(high)

    def seed(self, *_):
        return 0

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__

    def __repr__(self):
        return f"Box({list(self.low)}, {list(self.high)})"


class _BoxMeta(type):
    def __eq__(cls, o):
        return o is cls or o is _Box or o is SymBoxSpace

    def __hash__(cls):
        return hash(_Box)

    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (_Box, SymBoxSpace))

    def __subclasscheck__(cls, c):
        return issubclass(c, _Box)


class symBox(metaclass=_BoxMeta):
    def __new__(cls, low, high, shape=None, dtype=np.float32, seed=None):
        l, h = _plain(low), _plain(high)
        if l is None or h is None or is_sym(l) or is_sym(h):
            return SymBoxSpace(low, high, shape, dtype)
        if dtype is symfloat:
            dtype = np.float64
        return _Box(l, h, shape=shape, dtype=dtype, seed=seed)


symBox.__name__ = symBox.__qualname__ = "Box"


NP = SymNumpy()
MATH = SymMath()
PREFIXES = ("gym_electric_motor", "gem_controllers")


@contextlib.contextmanager
def injected(extra=None):
    """Replace np/math/float/int in the globals of every loaded /repo module for the duration."""
    saved = []
    import gymnasium.spaces as gs

    if gs.__dict__.get("Box") is _Box:
        saved.append((gs.__dict__, "Box", _Box))
        gs.__dict__["Box"] = symBox
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith(PREFIXES):
            continue
        d = mod.__dict__
        for key, val in list(d.items()):
            if val is np:
                saved.append((d, key, val))
                d[key] = NP
            elif val is math:
                saved.append((d, key, val))
                d[key] = MATH
            elif val is _Box:
                saved.append((d, key, val))
                d[key] = symBox
        for key, val in (("float", symfloat), ("int", symint), ("type", symtype), ("complex", symcomplex)):
            saved.append((d, key, d.get(key, None)))
            d[key] = val
        for key, val in (extra or {}).items():
            saved.append((d, key, d.get(key, None)))
            d[key] = val
    arrays = []
    for name, mod in list(sys.modules.items()):
        if mod is None or not name.startswith(PREFIXES):
            continue
        for val in list(mod.__dict__.values()):
            if isinstance(val, type) and val.__module__.startswith(PREFIXES):
                for k, v in list(val.__dict__.items()):
                    if type(v) is np.ndarray and v.dtype.kind == "f":
                        arrays.append((val, k, v))
                        setattr(val, k, v.astype(object).view(SArr))
    try:
        yield
    finally:
        for c, k, v in reversed(arrays):
            setattr(c, k, v)
        for d, key, val in reversed(saved):
            if val is None:
                d.pop(key, None)
            else:
                d[key] = val

"""numpy stand-in: functions that meet symbolic values are evaluated elementwise on object arrays, everything else is
handed to the real numpy."""
from __future__ import annotations

import functools
import math

import numpy as np
import z3

from symx import core, mathx
from symx.core import EngineLimit, SymBool, SymNum, has_sym, is_sym, kind_of, mk, special, zb, zr


def to_obj(x):
    if isinstance(x, np.ndarray):
        return x if x.dtype == object else x.astype(object)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return np.array([unbox(to_obj(i)) if not isinstance(i, (list, tuple, np.ndarray)) else to_obj(i) for i in x], dtype=object)
    if hasattr(x, "__iter__") and not isinstance(x, str):
        return to_obj(list(x))
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def unbox(a):
    if isinstance(a, np.ndarray) and a.ndim == 0:
        return a[()]
    return a


def elementwise(f, *args):
    arrs = [to_obj(a) for a in args]
    out = np.frompyfunc(lambda *xs: f(*(x.item() if isinstance(x, np.generic) else x for x in xs)), len(arrs), 1)(*arrs)
    return unbox(out) if isinstance(out, np.ndarray) else out


def S(x):
    """scalar to SymNum"""
    return x if is_sym(x) else mk(core.q(x), "f")


def _m1(name, npf):
    mf = getattr(mathx, name)

    def f(x):
        return mf(x) if is_sym(x) else npf(float(x))

    return f


def _cond(c):
    return c if isinstance(c, (bool, np.bool_)) and type(c) is not SymBool else c


_un = {
    "cos": _m1("cos", np.cos), "sin": _m1("sin", np.sin), "tan": _m1("tan", np.tan),
    "sqrt": _m1("sqrt", np.sqrt), "exp": _m1("exp", np.exp), "log": _m1("log", np.log),
    "arctan": _m1("atan", np.arctan), "arcsin": _m1("asin", np.arcsin), "arccos": _m1("acos", np.arccos),
    "tanh": _m1("tanh", np.tanh), "sinh": _m1("sinh", np.sinh),
    "radians": _m1("radians", np.radians), "deg2rad": _m1("radians", np.radians),
    "degrees": _m1("degrees", np.degrees), "rad2deg": _m1("degrees", np.degrees),
    "sign": _m1("sign", np.sign), "square": lambda x: x * x,
    "absolute": abs, "abs": abs, "fabs": abs, "negative": lambda x: -x, "positive": lambda x: x,
    "isnan": lambda x: mathx.isnan(x), "isfinite": lambda x: mathx.isfinite(x), "isinf": lambda x: mathx.isinf(x),
    "floor": lambda x: x.floor() if is_sym(x) else math.floor(x),
    "ceil": lambda x: x.ceil() if is_sym(x) else math.ceil(x),
    "rint": lambda x: x.rint() if is_sym(x) else np.rint(x),
    "trunc": lambda x: mk(z3.ToReal(core.trunc_e(x)), "f") if is_sym(x) else math.trunc(x),
    "reciprocal": lambda x: 1.0 / x,
    "logical_not": lambda x: SymBool(z3.Not(zb(x))) if is_sym(x) else (not x),
    "conjugate": lambda x: x,
    "signbit": lambda x: SymBool(zr(x) < 0) if is_sym(x) else bool(np.signbit(x)),
}
_bi = {
    "add": lambda a, b: a + b, "subtract": lambda a, b: a - b, "multiply": lambda a, b: a * b,
    "divide": lambda a, b: a / b, "true_divide": lambda a, b: a / b, "power": lambda a, b: a**b,
    "float_power": lambda a, b: a**b,
    "floor_divide": lambda a, b: a // b, "remainder": lambda a, b: a % b, "mod": lambda a, b: a % b,
    "fmod": lambda a, b: mathx.fmod(a, b) if (is_sym(a) or is_sym(b)) else math.fmod(a, b),
    "less": lambda a, b: a < b, "less_equal": lambda a, b: a <= b, "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b, "equal": lambda a, b: a == b, "not_equal": lambda a, b: a != b,
    "maximum": lambda a, b: mathx.vmax(a, b) if (is_sym(a) or is_sym(b)) else max(a, b),
    "minimum": lambda a, b: mathx.vmin(a, b) if (is_sym(a) or is_sym(b)) else min(a, b),
    "fmax": lambda a, b: mathx.vmax(a, b) if (is_sym(a) or is_sym(b)) else max(a, b),
    "fmin": lambda a, b: mathx.vmin(a, b) if (is_sym(a) or is_sym(b)) else min(a, b),
    "arctan2": lambda a, b: mathx.atan2(a, b) if (is_sym(a) or is_sym(b)) else math.atan2(a, b),
    "hypot": lambda a, b: mathx.hypot(a, b) if (is_sym(a) or is_sym(b)) else math.hypot(a, b),
    "copysign": lambda a, b: mathx.copysign(a, b) if (is_sym(a) or is_sym(b)) else math.copysign(a, b),
    "logical_and": lambda a, b: SymBool(z3.And(zb(a), zb(b))) if (is_sym(a) or is_sym(b)) else bool(a and b),
    "logical_or": lambda a, b: SymBool(z3.Or(zb(a), zb(b))) if (is_sym(a) or is_sym(b)) else bool(a or b),
    "bitwise_and": lambda a, b: a & b, "bitwise_or": lambda a, b: a | b,
}


def ufunc(uf, method, inputs, kw):
    name = uf.__name__
    if method != "__call__":
        if method == "reduce" and name in _bi:
            a = to_obj(inputs[0])
            return functools.reduce(_bi[name], list(a.flat))
        raise EngineLimit(f"ufunc {name}.{method}")
    out = kw.pop("out", None)
    kw.pop("where", None)
    kw.pop("casting", None)
    kw.pop("dtype", None)
    if name == "matmul":
        r = matmul(*inputs)
    elif len(inputs) == 1 and name in _un:
        r = elementwise(_un[name], *inputs)
    elif len(inputs) == 2 and name in _bi:
        r = elementwise(_bi[name], *inputs)
    else:
        raise EngineLimit(f"numpy ufunc {name} on symbolic values")
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is None:
            return r
        o[...] = r
        return o
    return r


def _num(x):
    return x


def matmul(a, b):
    a, b = to_obj(a), to_obj(b)
    if a.ndim == 1 and b.ndim == 1:
        return _dot1(a, b)
    if a.ndim == 2 and b.ndim == 1:
        return np.array([_dot1(r, b) for r in a], dtype=object)
    if a.ndim == 1 and b.ndim == 2:
        return np.array([_dot1(a, b[:, j]) for j in range(b.shape[1])], dtype=object)
    if a.ndim == 2 and b.ndim == 2:
        out = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[1]):
                out[i, j] = _dot1(a[i], b[:, j])
        return out
    raise EngineLimit("matmul dims")


def _dot1(a, b):
    if len(a) != len(b):
        raise ValueError("matmul: dimension mismatch")
    r = 0.0
    for x, y in zip(a, b):
        if not is_sym(x) and x == 0 or not is_sym(y) and y == 0:
            continue
        r = r + x * y
    return r


def dot(a, b, out=None):
    a_, b_ = to_obj(a), to_obj(b)
    if a_.ndim == 0 or b_.ndim == 0:
        return unbox(a_) * unbox(b_)
    return matmul(a_, b_)


def cross(a, b, **kw):
    if kw:
        raise EngineLimit("cross kw")
    a, b = to_obj(a), to_obj(b)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    a0, a1, a2 = [a[..., i] if i < a.shape[-1] else 0.0 for i in range(3)]
    b0, b1, b2 = [b[..., i] if i < b.shape[-1] else 0.0 for i in range(3)]
    return np.array([a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0], dtype=object)


def clip(a, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get("min", a_min)
    a_max = kw.get("max", a_max)

    def f(x, *b):
        lo, hi = (b + (None, None))[:2] if a_min is not None else (None, b[0] if b else None)
        if lo is not None:
            x = _bi["maximum"](x, lo)
        if hi is not None:
            x = _bi["minimum"](x, hi)
        return x

    args = [a] + [v for v in (a_min, a_max) if v is not None]
    return elementwise(f, *args)


def norm(x, ord=None, axis=None, keepdims=False):
    x = to_obj(x)
    if axis is not None and x.ndim == 2:
        rows = x if axis in (1, -1) else x.T
        return np.array([norm(r, ord) for r in rows], dtype=object)
    if ord in (1,):
        return functools.reduce(_bi["add"], [abs(v) for v in x.flat])
    if ord == np.inf:
        return functools.reduce(_bi["maximum"], [abs(v) for v in x.flat])
    if ord not in (None, 2, "fro"):
        raise EngineLimit("norm ord")
    vals = [v for v in x.flat if is_sym(v) or v != 0]
    if not vals:
        return 0.0
    if len(vals) == 1:
        return abs(vals[0])
    return mathx.hypot(*vals) if any(is_sym(v) for v in vals) else math.sqrt(sum(v * v for v in vals))


def det(a):
    a = to_obj(a)
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    if n == 2:
        return a[0, 0] * a[1, 1] - a[0, 1] * a[1, 0]
    r = 0.0
    for j in range(n):
        if not is_sym(a[0, j]) and a[0, j] == 0:
            continue
        m = np.delete(np.delete(a, 0, 0), j, 1)
        r = r + ((-1) ** j) * a[0, j] * det(m)
    return r


def inv(a):
    a = to_obj(a)
    n = a.shape[0]
    if n == 3 and _is_rigid(a):
        # inverse of a rigid 2D transform
        R, t = a[:2, :2], a[:2, 2]
        out = np.empty((3, 3), dtype=object)
        out[:2, :2] = R.T
        out[:2, 2] = [-(R[0, 0] * t[0] + R[1, 0] * t[1]), -(R[0, 1] * t[0] + R[1, 1] * t[1])]
        out[2] = [0.0, 0.0, 1.0]
        return out
    d = det(a)
    if d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, j, 0), i, 1)
            cof = (det(m) if n > 1 else 1.0) * ((-1) ** (i + j))
            out[i, j] = cof / d if is_sym(cof) or is_sym(d) else cof / d
    return out


def _is_rigid(a):
    ctx = core.cur()
    for j, v in enumerate(a[2]):
        if is_sym(v) and not z3.is_true(z3.simplify(zr(v) == (1 if j == 2 else 0))) or not is_sym(v) and v != (1 if j == 2 else 0):
            return False
    c, s = zr(a[0, 0]), zr(a[1, 0])
    if not z3.is_true(z3.simplify(z3.And(zr(a[1, 1]) == c, zr(a[0, 1]) == -s))):
        if not all(z3.is_rational_value(v) and v.numerator_as_long() == 0 for v in
                   (z3.simplify(zr(a[1, 1]) - c, som=True), z3.simplify(zr(a[0, 1]) + s, som=True))):
            return False
    r, _ = ctx.solve([c * c + s * s != 1], timeout_ms=2000)
    return r == "unsat"


def solve(a, b):
    return matmul(inv(a), b)


def array(x, dtype=None, *a, **k):
    if has_sym(x):
        return np.array(to_obj(x), dtype=object)
    return _NP.array(x, dtype, *a, **k)


def asarray(x, *a, **k):
    if has_sym(x):
        return x if isinstance(x, np.ndarray) else to_obj(x)
    return _NP.asarray(x, *a, **k)


_NP = np


def _fill(f):
    @functools.wraps(f)
    def g(*a, **k):
        if core.CUR is not None and "dtype" not in k:
            return f(*a, **k).astype(object)
        if core.CUR is not None and k.get("dtype") in (float, np.float64, "float", "float64"):
            k = dict(k, dtype=object)
        return f(*a, **k)

    return g


def full(shape, v, dtype=None, **k):
    out = np.empty(shape, dtype=object)
    out[...] = v
    return out


def linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not isinstance(num, int) or is_sym(num):
        num = num.__index__()
    step = (b - a) / ((num - 1) if endpoint else num) if num > 1 else 0.0
    out = np.array([a + step * i for i in range(num)], dtype=object)
    if num > 1 and endpoint:
        out[-1] = b
    return (out, step) if retstep else out


def arange(*a, **k):
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    out, x = [], start
    while x < stop:
        out.append(x)
        x = x + step
        if len(out) > 64:
            raise EngineLimit("arange too long")
    return np.array(out, dtype=object)


def npsum(a, axis=None, **k):
    a = to_obj(a)
    if axis is None:
        return functools.reduce(_bi["add"], list(a.flat), 0)
    return np.add.reduce(a, axis=axis)


def npmean(a, axis=None, **k):
    a = to_obj(a)
    if axis is None:
        return npsum(a) / a.size
    return npsum(a, axis) / a.shape[axis]


def npmax(a, axis=None, **k):
    a = to_obj(a)
    if axis is not None:
        raise EngineLimit("max axis")
    return functools.reduce(_bi["maximum"], list(a.flat))


def npmin(a, axis=None, **k):
    a = to_obj(a)
    if axis is not None:
        raise EngineLimit("min axis")
    return functools.reduce(_bi["minimum"], list(a.flat))


def argmin(a, **k):
    a = list(to_obj(a).flat)
    b = 0
    for i in range(1, len(a)):
        if a[i] < a[b]:
            b = i
    return b


def argmax(a, **k):
    a = list(to_obj(a).flat)
    b = 0
    for i in range(1, len(a)):
        if a[i] > a[b]:
            b = i
    return b


def diff(a, n=1, axis=-1):
    a = to_obj(a)
    if a.ndim != 1 or n != 1:
        raise EngineLimit("diff")
    return np.array([y - x for x, y in zip(a[:-1], a[1:])], dtype=object)


def cumsum(a, **k):
    out, t = [], 0.0
    for v in to_obj(a).flat:
        t = t + v
        out.append(t)
    return np.array(out, dtype=object)


def searchsorted(a, v, side="left", sorter=None):
    import bisect

    a = list(to_obj(a).flat)
    return (bisect.bisect_left if side == "left" else bisect.bisect_right)(a, v)


def interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(to_obj(xp).flat), list(to_obj(fp).flat)

    def f(v):
        if v <= xp[0]:
            return (fp[0] if left is None or not (v < xp[0]) else left)
        if v >= xp[-1]:
            return (fp[-1] if right is None or not (v > xp[-1]) else right)
        for i in range(len(xp) - 1):
            if v <= xp[i + 1]:
                return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])

    return elementwise(f, x) if isinstance(x, (np.ndarray, list, tuple)) else f(x)


def where(c, a=None, b=None):
    if a is None:
        return np.where(np.array([bool(v) for v in to_obj(c).flat]))

    def f(c, a, b):
        if is_sym(c):
            return core.cur().ite(c, a, b)
        return a if c else b

    return elementwise(f, c, a, b)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return elementwise(lambda x, y: mathx.np_isclose(x, y, rtol, atol), a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = [zb(v) for v in np.atleast_1d(to_obj(isclose(a, b, rtol, atol))).flat]
    return SymBool(z3.And(r))


def npall(a, axis=None, **k):
    if axis is not None:
        raise EngineLimit("all axis")
    return SymBool(z3.And([zb(v) for v in to_obj(a).flat]))


def npany(a, axis=None, **k):
    if axis is not None:
        raise EngineLimit("any axis")
    return SymBool(z3.Or([zb(v) for v in to_obj(a).flat]))


def array_equal(a, b, equal_nan=False):
    a, b = to_obj(a), to_obj(b)
    if a.shape != b.shape:
        return False
    return SymBool(z3.And([zb(x == y) for x, y in zip(a.flat, b.flat)]))


def trapz(y, x=None, dx=1.0, axis=-1):
    y = list(to_obj(y).flat)
    r = 0.0
    xs = None if x is None else list(to_obj(x).flat)
    for i in range(len(y) - 1):
        d = dx if xs is None else xs[i + 1] - xs[i]
        r = r + d * (y[i] + y[i + 1]) / 2.0
    return r


def outer(a, b):
    a, b = to_obj(a).ravel(), to_obj(b).ravel()
    return np.array([[x * y for y in b] for x in a], dtype=object)


def nproud(x, decimals=0, **k):
    return elementwise(lambda v: round(v, decimals) if is_sym(v) else np.round(v, decimals), x)


def nan_to_num(x, *a, **k):
    return x


def real_if_close(x, *a, **k):
    return x


def isscalar(x):
    return True if is_sym(x) else _NP.isscalar(x)


OVER = {
    "array": array, "asarray": asarray, "dot": dot, "vdot": dot, "inner": dot, "matmul": matmul, "cross": cross,
    "clip": clip, "linspace": linspace, "arange": arange, "sum": npsum, "mean": npmean, "average": npmean,
    "max": npmax, "amax": npmax, "min": npmin, "amin": npmin, "argmin": argmin, "argmax": argmax, "diff": diff,
    "cumsum": cumsum, "searchsorted": searchsorted, "interp": interp, "where": where, "isclose": isclose,
    "allclose": allclose, "all": npall, "any": npany, "array_equal": array_equal, "trapz": trapz, "outer": outer,
    "round": nproud, "around": nproud, "round_": nproud, "nan_to_num": nan_to_num, "full": full,
    "asfarray": asarray, "isscalar": isscalar,
}
_FORCE = {"isscalar", "arange_"}
LINALG = {"norm": norm, "det": det, "inv": inv, "solve": solve}
FILL = {"zeros", "ones", "empty", "eye", "identity"}
SAFE = {"concatenate", "hstack", "vstack", "stack", "column_stack", "append", "reshape", "ravel", "transpose", "squeeze", "flip",
        "roll", "atleast_1d", "atleast_2d", "expand_dims", "copy", "shape", "ndim", "size", "diag", "tile", "repeat",
        "ndenumerate", "ndindex", "delete", "insert", "meshgrid", "block", "array_split", "split", "take", "newaxis",
        "zeros_like", "ones_like", "empty_like", "full_like", "broadcast_to", "ndarray", "fliplr", "flipud", "rot90", "moveaxis", "swapaxes",
        "vectorize", "isin", "iterable", "require", "ascontiguousarray"}


class NpProxy:
    def __init__(self, real, table, sub=None, prefix="np"):
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table
        self.__dict__["_sub"] = sub or {}
        self.__dict__["_cache"] = {}
        self.__dict__["_prefix"] = prefix
        self.__dict__["__name__"] = real.__name__

    def __getattr__(self, n):
        c = self._cache
        if n in c:
            return c[n]
        if n in self._sub:
            v = self._sub[n]
        else:
            v = wrap(n, getattr(self._real, n), self._table, self._prefix)
        c[n] = v
        return v


def wrap(n, real, table, prefix="np"):
    if n in FILL and prefix == "np":
        return _fill(real)
    if not callable(real) or isinstance(real, type):
        return real
    over = table.get(n)
    uf = prefix == "np" and (n in _un or n in _bi)

    def f(*a, **k):
        if core.CUR is None or not (any(has_sym(x) for x in a) or any(has_sym(x) for x in k.values())):
            # real numpy rejects object arrays of plain numbers in many functions: convert back
            return real(*[_plain(x) for x in a], **k)
        if over is not None:
            return over(*a, **k)
        if uf:
            out = k.pop("out", None)
            r = elementwise((_un[n] if len(a) == 1 else _bi[n]), *a)
            if out is not None:
                out[...] = r
                return out
            return r
        if n in SAFE:
            return real(*a, **k)
        raise EngineLimit(f"{prefix}.{n} on symbolic values")

    functools.update_wrapper(f, real, updated=())
    f.__wrapped_np__ = real
    return f


def _plain(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        try:
            return x.astype(float)
        except Exception:
            return x
    return x

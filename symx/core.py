r"""Symbolic execution of real Python code by operator overloading and path forking.

A harness is an ordinary Python function `h(ctx)`.  It asks the context for inputs (`ctx.real`, `ctx.int`,
`ctx.boolean`, `ctx.choice`), calls the real code of /repo with them and states the property with `ctx.eq`,
`ctx.le`, `ctx.true`.  The very same function runs in two modes:

 * symbolic  : inputs are z3 terms wrapped in number-like objects; every truth test on a symbolic condition forks the
               exploration (re-execution with a decision prefix); every assertion is an SMT query
               `path condition /\ not property`;
 * concrete  : inputs come from a recorded assignment, nothing is patched, the assertions are evaluated on the values
               the real code returns.  Used to replay counterexamples.
"""
from __future__ import annotations

import math
import time
from decimal import Decimal
from fractions import Fraction
from typing import Any, Dict, List, Optional

import numpy as np
import z3

z3.set_param("rewriter.expand_nested_stores", False)

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


BEAT = [None]  # when the running solver query should be over


def checked(s, limit=None):
    BEAT[0] = time.time() + (limit if limit is not None else 10.0)
    try:
        return s.check()
    finally:
        BEAT[0] = None


class PathEnd(BaseException):
    """Control flow of the engine; not an Exception, so code under test does not swallow it."""


class PathInfeasible(PathEnd):
    pass


class EngineLimit(PathEnd):
    """The engine cannot carry on with this path (unsupported operation, budget)."""


class AssumptionNotMet(PathEnd):
    """Concrete replay only: the recorded inputs do not meet an assumption of the harness."""


CUR: Optional["SymCtx"] = None


def cur() -> "SymCtx":
    if CUR is None:
        raise EngineLimit("symbolic value used outside a symbolic run")
    return CUR


# ------------------------------------------------------------------------------------------------- z3 conversion
def frac(x) -> Fraction:
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, Decimal):
        return Fraction(x)
    x = float(x)
    return _TURNS.get(x) or Fraction(repr(x))


# multiples of pi / 4 are multiples of one and the same rational
_TURNS = {k * math.pi / 4: k * Fraction(repr(math.pi)) / 4 for k in range(-32, 33) if k}


def q(x) -> z3.ExprRef:
    f = frac(x)
    return z3.RatVal(f.numerator, f.denominator)


def is_sym(x) -> bool:
    return type(x) is SymNum or type(x) is SymBool


def has_sym(x, depth=4) -> bool:
    t = type(x)
    if t is SymNum or t is SymBool:
        return True
    if depth == 0:
        return False
    if t in (list, tuple, set, frozenset):
        return any(has_sym(i, depth - 1) for i in x)
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(has_sym(i, depth - 1) for i in x.flat)
    if t is dict:
        return any(has_sym(i, depth - 1) for i in x.values())
    return False


def kind_of(x) -> Optional[str]:
    """'i','f','d' for int-like, float-like, Decimal-like numbers; None otherwise."""
    t = type(x)
    if t is SymNum:
        return x.kind
    if t is SymBool or t is bool or t is np.bool_:
        return "i"
    if isinstance(x, (int, np.integer)):
        return "i"
    if isinstance(x, (float, np.floating)):
        return "f"
    if isinstance(x, Decimal):
        return "d"
    if isinstance(x, Fraction):
        return "f"
    return None


def special(x) -> Optional[float]:
    """inf/nan as python float, else None"""
    if type(x) in (SymNum, SymBool):
        return None
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if math.isinf(f) or math.isnan(f):
            return f
    elif isinstance(x, Decimal) and not x.is_finite():
        return float(x)
    return None


def z(x) -> z3.ArithRef:
    """z3 arithmetic term of a number (Int sort for int-like, Real otherwise)."""
    t = type(x)
    if t is SymNum:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return z(x.item())
    k = kind_of(x)
    if k == "i":
        return z3.IntVal(int(x))
    if k is None:
        raise EngineLimit(f"not a number: {type(x)}")
    return q(x)


def zr(x) -> z3.ArithRef:
    if type(x) is not SymNum and type(x) is not SymBool and kind_of(x) == "i":
        return q(int(x))
    e = z(x)
    return z3.ToReal(e) if e.is_int() else e


def _unit(x):
    """0 or 1 when x is that plain constant, else None"""
    if type(x) is SymNum:
        e = x.e
        if z3.is_rational_value(e) and e.denominator_as_long() == 1:
            n = e.numerator_as_long()
            return n if n in (0, 1) else None
        if z3.is_int_value(e):
            n = e.as_long()
            return n if n in (0, 1) else None
        return None
    if type(x) is SymBool:
        return None
    if x == 0:
        return 0
    if x == 1:
        return 1
    return None


def zb(x) -> z3.BoolRef:
    if type(x) is SymBool:
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if type(x) is SymNum:
        return x.e != 0
    return z3.BoolVal(bool(x))


def lift(e, kind=None):
    """Wrap a z3 term, folding constants to nothing special (kept symbolic: z3 numerals are fine)."""
    if isinstance(e, z3.BoolRef):
        return SymBool(e)
    return SymNum(e, kind or ("i" if e.is_int() else "f"))


# ------------------------------------------------------------------------------------------------------- booleans
class SymBool:
    __slots__ = ("e", "src")

    def __init__(self, e, src=None):
        self.e = e
        self.src = src

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        d = cur().branch(self.e)
        if self.src is not None:
            self.src[0]._narrow(self.src[1], self.src[2], d)
        return d

    def __and__(self, o):
        return SymBool(z3.And(self.e, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, zb(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, zb(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    logical_not = __invert__

    def __eq__(self, o):
        if kind_of(o) is None:
            return NotImplemented
        if type(o) in (SymBool, bool, np.bool_):
            return SymBool(self.e == zb(o))
        return SymNum(z(self), "i") == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SymBool(z3.Not(r.e))

    def __hash__(self):
        return hash(bool(self))

    def _n(self):
        return SymNum(z(self), "i")

    def __add__(self, o):
        return self._n() + o

    def __radd__(self, o):
        return o + self._n()

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __mul__(self, o):
        return self._n() * o

    def __rmul__(self, o):
        return o * self._n()

    def __lt__(self, o):
        return self._n() < o

    def __le__(self, o):
        return self._n() <= o

    def __gt__(self, o):
        return self._n() > o

    def __ge__(self, o):
        return self._n() >= o

    def __neg__(self):
        return -self._n()

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symx import npx

        return npx.ufunc(ufunc, method, inputs, kw)

    def all(self):
        return self

    any = all
    item = all


# -------------------------------------------------------------------------------------------------------- numbers
_PYT = {"f": float, "d": Decimal, "i": int}


def _bin_kind(a, b, div=False):
    ka, kb = kind_of(a), kind_of(b)
    if ka is None or kb is None:
        return None
    if {ka, kb} == {"d", "f"}:
        raise TypeError("unsupported operand type(s): 'decimal.Decimal' and 'float'")
    if "d" in (ka, kb):
        return "d"
    if "f" in (ka, kb):
        return "f"
    return "f" if div else "i"


def _inf_like(v, kind):
    return Decimal(repr(v)) if kind == "d" else v


class SymNum:
    __slots__ = ("e", "kind")
    __array_priority__ = 1000

    def __init__(self, e, kind="f"):
        if kind != "i" and e.is_int():
            e = z3.ToReal(e)
        self.e = e
        self.kind = kind

    def _narrow(self, op, c, taken):
        """what this path has learned by comparing this number with a constant; an integer with one value left becomes it"""
        if not taken:
            op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
        ctx = cur()
        lo, hi, los, his = ctx.learned_about(self.e)
        c = Fraction(c)
        if op in ("<", "<="):
            if self.kind == "i":
                c, op = Fraction(math.ceil(c) - 1 if op == "<" else math.floor(c)), "<="
            if hi is None or c < hi or (c == hi and op == "<"):
                hi, his = c, op == "<"
        else:
            if self.kind == "i":
                c, op = Fraction(math.floor(c) + 1 if op == ">" else math.ceil(c)), ">="
            if lo is None or c > lo or (c == lo and op == ">"):
                lo, los = c, op == ">"
        ctx.learn_about(self.e, (lo, hi, los, his))
        if self.kind == "i" and lo is not None and hi is not None and (lo == hi or hi - lo <= 3 and _rounded(z3.simplify(self.e))):
            v = int(lo) if lo == hi else ctx.enumerate_int(self.e)  # the few values of a rounded number: one path each
            ctx.learn_about(self.e, (Fraction(v), Fraction(v), False, False))
            self.e = z3.IntVal(v)

    @property
    def __class__(self):
        return _PYT[self.kind]

    # -- arithmetic
    def _arr(self, o, f):
        return np.frompyfunc(f, 1, 1)(o)

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return self._arr(o, lambda v: self + v)
        k = _bin_kind(self, o)
        if k is None:
            return NotImplemented
        s = special(o)
        if s is not None:
            return _inf_like(s, k)
        if _unit(o) == 0:
            return mk(self.e, k)
        if _unit(self) == 0 and is_sym(o):
            return mk(z(o), k)
        return mk(z(self) + z(o), k) if k == "i" else mk(zr(self) + zr(o), k)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return self._arr(o, lambda v: self - v)
        k = _bin_kind(self, o)
        if k is None:
            return NotImplemented
        s = special(o)
        if s is not None:
            return _inf_like(-s, k)
        if _unit(o) == 0:
            return mk(self.e, k)
        return mk(z(self) - z(o), k) if k == "i" else mk(zr(self) - zr(o), k)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return self._arr(o, lambda v: v - self)
        k = _bin_kind(self, o)
        if k is None:
            return NotImplemented
        s = special(o)
        if s is not None:
            return _inf_like(s, k)
        return mk(z(o) - z(self), k) if k == "i" else mk(zr(o) - zr(self), k)

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return self._arr(o, lambda v: self * v)
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        k = _bin_kind(self, o)
        if k is None:
            return NotImplemented
        s = special(o)
        if s is not None:
            if math.isnan(s):
                return _inf_like(s, k)
            if self > 0:
                return _inf_like(s, k)
            if self < 0:
                return _inf_like(-s, k)
            return _inf_like(math.nan, k)
        u, w = _unit(o), _unit(self)
        if type(o) in (float, np.float64) and abs(o) < 1e-15:  # rounding residue such as cos(pi/2)
            u = 0
        if u == 0 or w == 0:
            return mk(z3.IntVal(0) if k == "i" else q(0), k)
        if u == 1:
            return mk(self.e, k)
        if w == 1:
            return mk(z(o), k)
        if k == "i":
            return mk(z(self) * z(o), k)
        a, b = zr(self), zr(o)
        for p_, q_ in ((a, b), (b, a)):  # (x / y) * y: y is not zero where the code divided by it
            if z3.is_div(p_) and p_.arg(1).eq(z3.simplify(q_, som=True)):
                return mk(p_.arg(0), k)
        return mk(a * b, k)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return self._arr(o, lambda v: self / v)
        k = _bin_kind(self, o, div=True)
        if k is None:
            return NotImplemented
        s = special(o)
        if s is not None:
            return _inf_like(0.0 if math.isinf(s) else math.nan, k)
        return div(self, o, k)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return self._arr(o, lambda v: v / self)
        k = _bin_kind(self, o, div=True)
        if k is None:
            return NotImplemented
        s = special(o)
        if s is not None:
            return _inf_like(s if self > 0 else -s, k)
        return div(o, self, k)

    def __floordiv__(self, o):
        return divmod_(self, o)[0]

    def __rfloordiv__(self, o):
        return divmod_(o, self)[0]

    def __mod__(self, o):
        return divmod_(self, o)[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return o
        return divmod_(o, self)[1]

    def __divmod__(self, o):
        return divmod_(self, o)

    def __rdivmod__(self, o):
        return divmod_(o, self)

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray) and o.ndim:
            return self._arr(o, lambda v: self**v)
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return mk(-self.e, self.kind)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(abs_term(self.e), self.kind)

    absolute = fabs = __abs__

    # -- comparisons
    def _cmp(self, o, f, sp, op=None):
        if isinstance(o, np.ndarray) and o.ndim:
            return self._arr(o, lambda v: self._cmp(v, f, sp))
        if kind_of(o) is None:
            if isinstance(o, np.ndarray):
                return self._cmp(o.item(), f, sp)
            return NotImplemented
        s = special(o)
        if s is not None:
            return sp(0.0, s)
        src = (self, op, o) if op and type(o) in (int, float, np.int64, np.float64) else None
        if self.kind == "i" and kind_of(o) == "i":
            return SymBool(f(self.e, z(o)), src)
        return SymBool(f(zr(self), zr(o)), src)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b: a < b, "<")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b, "<=")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b: a > b, ">")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b, ">=")

    def __eq__(self, o):
        if o is self:
            return True
        return self._cmp(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        if o is self:
            return False
        return self._cmp(o, lambda a, b: a != b, lambda a, b: a != b)

    def __hash__(self):
        return 0

    def __bool__(self):
        return cur().branch(self.e != 0)

    # -- conversions
    def __float__(self):
        # reached only from C code the shims do not cover: concretise (recorded, makes the run incomplete)
        return float(cur().concretise(self))

    def __index__(self):
        if self.kind != "i":
            raise TypeError("'float' object cannot be interpreted as an integer")
        v = cur().enumerate_int(self.e)
        self.e = z3.IntVal(v)
        return v

    def __int__(self):
        return cur().enumerate_int(trunc_e(self))

    def __trunc__(self):
        return SymNum(trunc_e(self), "i")

    def __floor__(self):
        return SymNum(floor_e(self), "i")

    def __ceil__(self):
        return SymNum(-floor_e(-self), "i")

    def floor(self):
        return mk(z3.ToReal(floor_e(self)), self.kind) if self.kind != "i" else self

    def ceil(self):
        return -((-self).floor())

    def rint(self):
        return round_(self, 0)

    def __round__(self, n=None):
        if n is None:
            return SymNum(z3.ToInt(zr(round_(self, 0))), "i")
        return round_(self, n)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic value")

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    # -- numpy / float / Decimal API
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from symx import npx

        return npx.ufunc(ufunc, method, inputs, kw)

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    @property
    def dtype(self):
        return np.dtype(object)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def T(self):
        return self

    def conjugate(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        return SymNum(zr(self), "f") if t in (float, np.float64, "float") else self

    def is_integer(self):
        return SymBool(zr(self) == z3.ToReal(z3.ToInt(zr(self))))

    def is_finite(self):
        return True

    def is_nan(self):
        return False

    is_infinite = is_nan

    def as_integer_ratio(self):
        raise EngineLimit("as_integer_ratio")

    def quantize(self, *a, **k):
        raise EngineLimit("quantize")

    def logical_not(self):
        return SymBool(self.e == 0)



def _method(name):
    def f(self, *a):
        from symx import mathx

        return getattr(mathx, name)(self, *a)

    return f


for _np_name, _fn in (
    [(n, n) for n in ("cos", "sin", "tan", "sqrt", "exp", "log", "arctan2", "hypot", "tanh", "sinh", "cosh", "radians", "degrees", "sign", "square", "isnan", "isfinite", "isinf")]
    + [("arctan", "atan"), ("arcsin", "asin"), ("arccos", "acos"), ("deg2rad", "radians"), ("rad2deg", "degrees"), ("arctan2", "atan2")]
):
    setattr(SymNum, _np_name, _method(_fn))


def mk(e, kind):
    return SymNum(e, kind)


def is_zero_const(e):
    e = z3.simplify(e)
    return z3.is_rational_value(e) and e.numerator_as_long() == 0 or z3.is_int_value(e) and e.as_long() == 0


def div(a, b, kind):
    eb = z3.simplify(zr(b))
    if not z3.is_rational_value(eb):
        if cur().branch(eb == 0):
            raise ZeroDivisionError("division by zero")
        ea = zr(a)
        return mk(cur().quotient(ea, eb), kind)
    if eb.numerator_as_long() == 0:
        raise ZeroDivisionError("division by zero")
    return mk(zr(a) * q(1 / Fraction(eb.numerator_as_long(), eb.denominator_as_long())), kind)


def _rounded(e):
    return z3.is_to_int(e) or z3.is_add(e) and any(z3.is_to_int(c) for c in e.children())


def floor_e(x):
    if x.kind == "i":
        return x.e
    e = z3.simplify(x.e)
    if z3.is_rational_value(e):
        return z3.IntVal(math.floor(Fraction(e.numerator_as_long(), e.denominator_as_long())))
    lo, hi, los, his = cur().learned_about(e)
    if lo is not None and hi is not None and (math.floor(hi) == math.floor(lo) or his and hi == math.floor(lo) + 1):
        return z3.IntVal(math.floor(lo))
    r = z3.ToInt(x.e)
    lo, hi, los, his = cur().learned_about(r)
    return r if lo is None or lo != hi else z3.IntVal(int(lo))


def trunc_e(x):
    if x.kind == "i":
        return x.e
    return z3.If(x.e >= 0, z3.ToInt(x.e), -z3.ToInt(-x.e))


def divmod_(a, b):
    k = _bin_kind(a, b)
    if k is None:
        raise EngineLimit("divmod operands")
    if special(b) is not None or special(a) is not None:
        raise EngineLimit("divmod with inf")
    if not is_sym(b) or z3.is_rational_value(z3.simplify(zr(b))):
        if is_zero_const(zr(b)):
            raise ZeroDivisionError("modulo by zero")
        pos = None
    elif cur().branch(zr(b) == 0):
        raise ZeroDivisionError("modulo by zero")
    if k == "d":
        # Decimal: truncated division
        r = zr(a) / zr(b)
        n = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
    else:
        n = z3.ToInt(zr(a) / zr(b))
    nk = z3.ToReal(n)
    rem = zr(a) - zr(b) * nk
    if k == "i":
        return SymNum(n, "i"), SymNum(z3.ToInt(rem), "i")
    return mk(nk, k), mk(rem, k)


def round_(x, n):
    if x.kind == "i":
        return x
    s = Fraction(10) ** int(n)
    y = x.e * q(s)
    f = z3.ToInt(y)
    d = y - z3.ToReal(f)
    half = z3.If(f % 2 == 0, f, f + 1)
    r = z3.If(d < q(Fraction(1, 2)), f, z3.If(d > q(Fraction(1, 2)), f + 1, half))
    return mk(z3.ToReal(r) * q(1 / s), x.kind)


def power(a, b):
    from symx import mathx

    if is_sym(b):
        eb = z3.simplify(zr(b))
        if z3.is_rational_value(eb):
            b = Fraction(eb.numerator_as_long(), eb.denominator_as_long())
        else:
            return mathx.pow_general(a, b)
    kb = kind_of(b)
    if kb is None:
        return NotImplemented
    k = _bin_kind(a, b) if kb != "i" else kind_of(a)
    f = frac(b)
    if f == Fraction(1, 2):
        return mathx.sqrt(a)
    if f.denominator != 1:
        return mathx.pow_general(a, b)
    n = int(f)
    base = a
    if n < 0:
        return 1 / power(a, -n)
    if n == 0:
        return 1.0 if k == "f" else (Decimal(1) if k == "d" else 1)
    e = z(a) if k == "i" else zr(a)
    r = e
    for _ in range(n - 1):
        r = r * e
    return mk(r, k)


# --------------------------------------------------------------------------------------------------------- contexts
def interior(c, margin):
    """c strengthened by a margin when it is an inequality between reals, else None"""
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    k = c.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        return None
    a, b = c.arg(0), c.arg(1)
    if not a.is_real():
        return None
    le = (k in (z3.Z3_OP_LE, z3.Z3_OP_LT)) ^ neg
    return a + q(margin) <= b if le else a >= b + q(margin)


_ABS_CACHE = {}
_ABS_KEEP = []
_ABS_OF = {}  # constant standing for a product -> (constant, factors)
_ABS_PRODS = {}  # condition -> such constants in it


def interval(e, depth=12):
    """(lo, hi) bounds of an arithmetic term from the declared ranges of its variables (None: unbounded)"""
    bounds, memo = CUR.bounds, CUR.interval_memo
    k = e.get_id()
    if k in memo:
        return memo[k]
    r = (None, None)
    if z3.is_rational_value(e) or z3.is_int_value(e):
        v = Fraction(e.as_long()) if z3.is_int_value(e) else Fraction(e.numerator_as_long(), e.denominator_as_long())
        r = (v, v)
    elif k in bounds:
        r = bounds[k]
    elif depth > 0 and z3.is_app(e) and e.num_args():
        kind, ch = e.decl().kind(), e.children()
        if kind == z3.Z3_OP_ADD:
            r = (Fraction(0), Fraction(0))
            for c in ch:
                i = interval(c, depth - 1)
                r = tuple(None if a is None or b is None else a + b for a, b in zip(r, i))
        elif kind == z3.Z3_OP_SUB and len(ch) == 2:
            a, b = interval(ch[0], depth - 1), interval(ch[1], depth - 1)
            r = (None if a[0] is None or b[1] is None else a[0] - b[1], None if a[1] is None or b[0] is None else a[1] - b[0])
        elif kind == z3.Z3_OP_UMINUS:
            a = interval(ch[0], depth - 1)
            r = (None if a[1] is None else -a[1], None if a[0] is None else -a[0])
        elif kind == z3.Z3_OP_TO_REAL:
            r = interval(ch[0], depth - 1)
        elif kind == z3.Z3_OP_MUL:
            if len(ch) == 2 and ch[0].eq(ch[1]):
                a = interval(ch[0], depth - 1)
                r = (Fraction(0), None if None in a else max(x * x for x in a))
            else:
                r = (Fraction(1), Fraction(1))
                for c in ch:
                    i = interval(c, depth - 1)
                    if None in r or None in i:
                        # a non-negative factor keeps the sign
                        lo = Fraction(0) if None not in (r[0], i[0]) and r[0] >= 0 and i[0] >= 0 else None
                        hi = Fraction(0) if (r[0] is not None and i[1] is not None and r[0] >= 0 and i[1] <= 0) or (r[1] is not None and i[0] is not None and r[1] <= 0 and i[0] >= 0) else None
                        r = (lo, hi)
                    else:
                        p = [x * y for x in r for y in i]
                        r = (min(p), max(p))
        elif kind == z3.Z3_OP_ITE:
            a, b = interval(ch[1], depth - 1), interval(ch[2], depth - 1)
            r = (None if None in (a[0], b[0]) else min(a[0], b[0]), None if None in (a[1], b[1]) else max(a[1], b[1]))
    memo[k] = r
    CUR.keep.append(e)
    return r


def abs_term(e):
    if getattr(CUR, "symbolic", False):
        lo, hi = interval(e)
        if lo is not None and lo >= 0:
            return e
        if hi is not None and hi <= 0:
            return -e
    return z3.If(e >= 0, e, -e)


def abstract(c):
    """(term, nonlinear?) with every product, quotient and power of non-constants replaced by a fresh constant, the
    same for equal terms: unsatisfiable here implies unsatisfiable."""
    key = c.get_id()
    if key in _ABS_CACHE:
        return _ABS_CACHE[key]
    s = z3.simplify(c, som=True)
    subs, seen, sq, prods = [], set(), [], []
    stack = [s]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_MUL:
            rest = [x for x in t.children() if not (z3.is_rational_value(x) or z3.is_int_value(x))]
            if len(rest) > 1:
                num = [x for x in t.children() if z3.is_rational_value(x) or z3.is_int_value(x)]
                rest = sorted(rest, key=lambda x: x.get_id())
                name = "abs!" + "*".join(str(x.get_id()) for x in rest)
                v = z3.Int(name) if t.is_int() else z3.Real(name)
                if len(rest) == 2 and rest[0].eq(rest[1]):
                    sq.append(v >= 0)
                r = v
                for x in num:
                    r = x * r
                subs.append((t, r))
                _ABS_KEEP.extend(rest)
                _ABS_OF.setdefault(v.get_id(), (v, rest))
                prods.append(v.get_id())
                continue
        elif k in (z3.Z3_OP_DIV, z3.Z3_OP_POWER, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            d = t.arg(1)
            if not (z3.is_rational_value(d) or z3.is_int_value(d)) or k == z3.Z3_OP_POWER:
                v = z3.Int(f"abs!{k}!{i}") if t.is_int() else z3.Real(f"abs!{k}!{i}")
                if k == z3.Z3_OP_POWER and str(d) == "2":
                    sq.append(v >= 0)
                subs.append((t, v))
                _ABS_KEEP.append(t)
                continue
        stack.extend(t.children())
    if subs:
        r = z3.substitute(s, *subs)
        if sq:
            r = z3.And(r, *sq)
    else:
        r = s
    _ABS_KEEP.append(c)
    _ABS_CACHE[key] = (r, bool(subs))
    _ABS_PRODS[key] = prods
    return _ABS_CACHE[key]


class Input:
    __slots__ = ("name", "var", "kind", "lo", "hi")

    def __init__(self, name, var, kind, lo, hi):
        self.name, self.var, self.kind, self.lo, self.hi = name, var, kind, lo, hi


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.results = {"sat": 0, "unsat": 0, "unknown": 0}


def ev_frac(model, e) -> Optional[Fraction]:
    v = model.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None


def py_value(fr: Fraction, kind: str):
    if kind == "i":
        return int(fr)
    if kind == "d":
        return Decimal(fr.numerator) / Decimal(fr.denominator)
    return float(fr)


class BaseCtx:
    symbolic = False

    # shared sugar --------------------------------------------------------------------------------------
    def reals(self, prefix, n, lo=None, hi=None, kind="f"):
        return [self.real(f"{prefix}{i}", lo, hi, kind) for i in range(n)]

    def timestamps(self, prefix, n, lo=0, hi=100, kind="d", min_gap=None):
        """strictly increasing symbolic timestamps"""
        ts = self.reals(prefix, n, lo, hi, kind)
        for a, b in zip(ts, ts[1:]):
            self.assume(a < b if min_gap is None else b - a >= min_gap)
        return ts

    def near(self, a, b, name, tol=1e-6):
        return self.eq(a, b, name, tol)

    def seq_eq(self, a, b, name, tol=1e-6):
        a, b = list(a), list(b)
        self.true(len(a) == len(b), name + ":length")
        for i, (u, v) in enumerate(zip(a, b)):
            self.eq(u, v, f"{name}[{i}]", tol)

    def norm(self, x):
        """the same value in polynomial normal form (an easier term for the solver)"""
        return x

    def raises(self, fn, exc, name):
        """fn must raise one of exc."""
        try:
            fn()
        except exc:
            self.true(True, name)
            return
        self.true(False, name)


class ConcCtx(BaseCtx):
    """Concrete replay: inputs from an assignment, assertions evaluated."""

    def __init__(self, values: Dict[str, Any]):
        self.values = values
        self.failed: List[dict] = []
        self.checked = 0
        self.notes = {}

    def _get(self, name, kind, lo):
        v = self.values.get(name)
        if v is None:
            v = lo if lo is not None else 0
            return py_value(frac(v), kind)
        return py_value(Fraction(v), kind)

    def real(self, name, lo=None, hi=None, kind="f"):
        return self._get(name, kind, lo)

    def int(self, name, lo=None, hi=None):
        return self._get(name, "i", lo)

    def boolean(self, name):
        return bool(self._get(name, "i", 0))

    def angle(self, name, lo=-math.pi, hi=math.pi):
        return self.real(name, lo, hi)

    def choice(self, name, options):
        options = list(options)
        i = self._get(name, "i", 0)
        return options[min(max(i, 0), len(options) - 1)]

    def stub(self, name, lo=None, hi=None, kind="f"):
        return self.real(name, lo, hi, kind)

    def assume(self, cond):
        if not cond:
            raise AssumptionNotMet()

    def cond(self, c):
        return bool(c)

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def prove_fact(self, a, b, tol=1e-9):
        pass

    def fail(self, name, detail=""):
        self.failed.append({"assertion": name, "detail": str(detail)[:300]})

    def true(self, cond, name):
        self.checked += 1
        if not bool(cond):
            self.fail(name)

    def eq(self, a, b, name, tol=1e-6):
        self.checked += 1
        try:
            fa, fb = float(a), float(b)
        except Exception as exc:
            self.fail(name, f"not comparable: {type(a)} {type(b)} {exc}")
            return
        if fa == fb:
            return
        # a deviation the symbolic query counts as a violation is larger than tol; float noise is far smaller
        if not (abs(fa - fb) <= 0.5 * float(tol) + 1e-12 * max(abs(fa), abs(fb))):
            self.fail(name, f"{fa!r} != {fb!r}")

    def le(self, a, b, name, tol=1e-6):
        self.checked += 1
        fa, fb = float(a), float(b)
        if not (fa <= fb + 0.5 * float(tol) + 1e-12 * max(abs(fa), abs(fb))):
            self.fail(name, f"{fa!r} > {fb!r}")

    def ge(self, a, b, name, tol=1e-6):
        self.le(b, a, name, tol)

    def reach(self, name="end"):
        pass

    def note(self, k, v):
        self.notes[k] = v


class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, prefix, stats: Stats, timeout_ms=4000, deadline=None, base=None):
        self.prefix: List[bool] = prefix
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.pos = 0
        self.decisions: List[bool] = []
        self.path: List[z3.BoolRef] = []
        self.alternatives: List[List[bool]] = []
        self.inputs: Dict[str, Input] = {}
        self.model = None
        self.decided: Dict[int, bool] = {}
        self.forms: Dict[Any, Any] = {}
        self.keep: List[Any] = []
        self.fresh_n = 0
        self.trig: Dict[int, Any] = {}
        self.bounds: Dict[int, Any] = {}
        self.interval_memo: Dict[int, Any] = {}
        self.mathmemo: Dict[Any, Any] = {}
        self.learned: Dict[int, Any] = {}
        self.concretised = 0
        self.unknown_branches = 0
        self.results: List[dict] = []  # per assertion
        self.reached = set()
        self.notes = {}
        self.last_model = None
        self.check_budget = None

    # ---- inputs
    def _input(self, name, kind, lo, hi):
        if name in self.inputs:
            i = self.inputs[name]
            return SymNum(i.var, kind)
        v = z3.Int(name) if kind == "i" else z3.Real(name)
        self.inputs[name] = Input(name, v, kind, lo, hi)
        self.bounds[v.get_id()] = (None if lo is None else Fraction(frac(lo)), None if hi is None else Fraction(frac(hi)))
        if lo is not None:
            self.add(v >= (z3.IntVal(lo) if kind == "i" else q(lo)))
        if hi is not None:
            self.add(v <= (z3.IntVal(hi) if kind == "i" else q(hi)))
        return SymNum(v, kind)

    def real(self, name, lo=None, hi=None, kind="f"):
        return self._input(name, kind, lo, hi)

    # nondeterministic result of a stub: an input like any other (so that the replay can feed it back)
    stub = real

    def int(self, name, lo=None, hi=None):
        return self._input(name, "i", lo, hi)

    def boolean(self, name):
        v = self._input(name, "i", 0, 1)
        return SymBool(v.e == 1)

    def angle(self, name, lo=-math.pi, hi=math.pi):
        return self.real(name, lo, hi)

    def choice(self, name, options):
        options = list(options)
        v = self._input(name, "i", 0, len(options) - 1)
        for i in range(len(options) - 1):
            if self.branch(v.e == i):
                return options[i]
        return options[-1]

    def fresh(self, tag, sort="r"):
        self.fresh_n += 1
        n = f"{tag}!{self.fresh_n}"
        return z3.Int(n) if sort == "i" else (z3.Bool(n) if sort == "b" else z3.Real(n))

    # ---- boolean sugar
    def cond(self, c):
        return SymBool(zb(c))

    def ite(self, c, a, b):
        ka, kb = kind_of(a), kind_of(b)
        k = "d" if "d" in (ka, kb) else ("f" if "f" in (ka, kb) else "i")
        c = zb(c)
        if k == "i":
            return mk(z3.If(c, z(a), z(b)), k)
        return mk(z3.If(c, zr(a), zr(b)), k)

    def and_(self, *cs):
        return SymBool(z3.And([zb(c) for c in cs])) if cs else True

    def or_(self, *cs):
        return SymBool(z3.Or([zb(c) for c in cs])) if cs else False

    def not_(self, c):
        return SymBool(z3.Not(zb(c)))

    def implies(self, a, b):
        return SymBool(z3.Implies(zb(a), zb(b)))

    # ---- path condition
    def add(self, c):
        self.path.append(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=False)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def learned_about(self, e):
        """(lower, upper, lower is strict, upper is strict) from this path's comparisons with constants"""
        return self.learned.get(z3.simplify(e).get_id(), (None, None, False, False))

    def learn_about(self, e, what):
        e = z3.simplify(e)
        self.keep.append(e)
        self.learned[e.get_id()] = what

    def quotient(self, a, b):
        sa, sb = z3.simplify(a, som=True), z3.simplify(b, som=True)
        key = ("div", sa.get_id(), sb.get_id())
        if key in self.mathmemo:
            return self.mathmemo[key]
        na = z3.simplify(-sa, som=True)
        nkey = ("div", na.get_id(), sb.get_id())
        if nkey in self.mathmemo:
            return -self.mathmemo[nkey]

        if z3.is_div(sb) and not z3.is_rational_value(sb.arg(1)):  # a / (p / q): q is not zero where the code divided by it
            r = self.quotient(sa * sb.arg(1), sb.arg(0))
        else:
            r = poly.exact_quotient(sa, sb, self) if z3.is_rational_value(sb) is False else None
        if r is None:
            r = sa / sb
        self.keep += [sa, sb, na, r]
        self.mathmemo[key] = r
        return r

    def solve(self, extra=(), timeout_ms=None, want_model=True):
        """('sat'|'unsat'|'unknown', model)"""
        left = None
        tmo = timeout_ms or self.timeout_ms
        if self.deadline is not None:
            left = int((self.deadline - time.time()) * 1000)
            if left <= 0:
                raise EngineLimit("deadline")
            tmo = min(tmo, max(left, 50))
        t0 = time.time()
        r = None
        ab = [abstract(c) for c in list(self.path) + list(extra)]
        if any(n for _, n in ab):
            s = z3.Solver()
            s.set("timeout", min(tmo, 1500))
            s.add(*[a for a, _ in ab])
            s.add(*self._product_bounds(list(self.path) + list(extra)))
            try:
                if checked(s) == z3.unsat:
                    r = z3.unsat
            except z3.Z3Exception:
                pass
        if r is None:
            s = z3.Solver()
            s.set("timeout", tmo)
            s.add(*self.path, *extra)
            try:
                r = checked(s)
            except z3.Z3Exception:
                r = z3.unknown
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.solver_s += dt
        name = "sat" if r == z3.sat else ("unsat" if r == z3.unsat else "unknown")
        self.stats.results[name] += 1
        return name, (s.model() if r == z3.sat else None)

    def _product_bounds(self, conds):
        """bounds of the abstracted products that follow from the declared ranges of their factors"""
        out = []
        for k in {k for c in conds for k in _ABS_PRODS.get(c.get_id(), ())}:
            v, rest = _ABS_OF[k]
            lo = hi = Fraction(1)
            groups = {}
            for x in rest:
                groups.setdefault(x.get_id(), []).append(x)
            for xs in groups.values():
                a, b = interval(xs[0])
                if a is None or b is None:
                    lo = hi = None
                    break
                n = len(xs)
                ends = [a**n, b**n]
                if n % 2 == 0 and a < 0 < b:
                    ends.append(Fraction(0))
                p = [x * y for x in (lo, hi) for y in (min(ends), max(ends))]
                lo, hi = min(p), max(p)
            if lo is not None:
                out += [v >= q(lo), v <= q(hi)]
        return out

    def solve_abstract(self, extra, value=None):
        """the linear part of the path: ('sat'|'unsat'|'unknown', value of an integer term)"""
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*[abstract(c)[0] for c in list(self.path) + list(extra)])
        v = None
        if value is not None:
            v = z3.FreshInt("enum")
            s.add(abstract(v == value)[0])
        t0 = time.time()
        r = checked(s)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        name = "sat" if r == z3.sat else ("unsat" if r == z3.unsat else "unknown")
        self.stats.results[name] += 1
        return name, (s.model().eval(v, model_completion=True).as_long() if r == z3.sat and v is not None else None)

    def tidy(self, c):
        c = z3.simplify(c)
        if abstract(c)[1]:
            c = z3.simplify(poly.tidy(c, self))
        return c

    def branch(self, c) -> bool:
        c = self.tidy(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        neg = False
        core = c
        while z3.is_not(core):
            core, neg = core.arg(0), not neg
        key = core.get_id()
        if key in self.decided:
            return self.decided[key] ^ neg
        at = poly.atom(core, self)
        if at is not None:
            known = self._known(at)
            if known is not None:
                return known ^ neg
        if self.deadline is not None and time.time() > self.deadline:
            raise EngineLimit("deadline")
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            if val is None:
                raise EngineLimit("prefix mismatch")
        else:
            val = self._decide(c)
        self.pos += 1
        self.decisions.append(val)
        lit = c if val else z3.Not(c)
        self.keep.append(core)
        self.decided[key] = val ^ neg
        if at is not None:
            self._note(at, val ^ neg)
        self.add(lit)
        return val

    def _known(self, at):
        """whether this path's earlier decisions settle the comparison"""
        form, op, c = at
        lo, los, hi, his, ne = self.forms.get(form, (None, False, None, False, ()))
        if op == "eq":
            if lo is not None and lo == hi == c:
                return True
            if c in ne or lo is not None and (c < lo or c == lo and los) or hi is not None and (c > hi or c == hi and his):
                return False
            return None
        if op in ("ge", "gt"):
            r = self._known((form, "lt" if op == "ge" else "le", c))
            return None if r is None else not r
        if hi is not None and (hi < c or hi == c and (op == "le" or his)):
            return True
        if lo is not None and (lo > c or lo == c and (op == "lt" or los)):
            return False
        return None

    def _note(self, at, val):
        form, op, c = at
        lo, los, hi, his, ne = self.forms.get(form, (None, False, None, False, ()))
        if op == "eq":
            if val:
                lo, los, hi, his = c, False, c, False
            else:
                ne = ne + (c,)
        else:
            if op in ("ge", "gt"):
                op, val = ("lt" if op == "ge" else "le"), not val
            strict = (op == "lt") == val
            if val:
                if hi is None or c < hi or c == hi and strict:
                    hi, his = c, strict
            elif lo is None or c > lo or c == lo and op == "le":
                lo, los = c, op == "le"
        los, his = los or lo in ne, his or hi in ne
        self.forms[form] = (lo, los, hi, his, ne)

    def _note_all(self, c):
        """assumed comparisons count as decided ones"""
        if z3.is_and(c):
            for x in c.children():
                self._note_all(x)
            return
        val = True
        while z3.is_not(c):
            c, val = c.arg(0), not val
        at = poly.atom(c, self)
        if at is not None:
            self._note(at, val)

    def _decide(self, c):
        canT = canF = None
        mT = mF = None
        if self.model is not None:
            v = self.model.eval(c, model_completion=True)
            if z3.is_true(v):
                canT, mT = True, self.model
            elif z3.is_false(v):
                canF, mF = True, self.model
        if canT is None:
            r, m = self.solve([c])
            canT = r != "unsat"
            mT = m
            if r == "unknown":
                self.unknown_branches += 1
        if canF is None:
            if not canT:
                canF = True  # the path itself is feasible (or unknown)
            else:
                r, m = self.solve([z3.Not(c)])
                canF = r != "unsat"
                mF = m
                if r == "unknown":
                    self.unknown_branches += 1
        if canT and canF:
            self.alternatives.append(self.decisions + [False])
            self.model = mT
            return True
        if canT:
            self.model = mT
            return True
        if canF:
            self.model = mF
            return False
        raise PathInfeasible()

    def feasible(self):
        if self.model is not None:
            return True
        r, m = self.solve()
        if m is not None:
            self.model = m
        return r != "unsat"

    def assume(self, cond):
        if type(cond) not in (SymBool, SymNum):
            if not bool(cond):
                raise PathInfeasible()
            return
        c = self.tidy(zb(cond))
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathInfeasible()
        self.add(c)
        self._note_all(c)
        # while a prefix is being replayed the path is known to be feasible
        if self.pos >= len(self.prefix) and not self.feasible():
            raise PathInfeasible()

    def concretise(self, x: SymNum):
        e = z3.simplify(x.e)
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long()) if not z3.is_int_value(e) else e.as_long()
        r, m = self.solve()
        if m is None:
            raise EngineLimit("concretisation without a model")
        v = ev_frac(m, e)
        if v is None:
            raise EngineLimit("concretisation failed")
        self.concretised += 1
        self.path.append(x.e == (z3.IntVal(int(v)) if e.is_int() else q(v)))
        self.model = None
        return v

    def enumerate_int(self, e, limit=64):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(limit):
            if self.pos < len(self.prefix):
                # the candidate value must be reproduced deterministically: it is kept in the prefix as an int
                cand = self.prefix[self.pos]
                if isinstance(cand, tuple):
                    val, taken = cand
                    self.pos += 1
                    self.decisions.append(cand)
                    self.add(e == val if taken else e != val)
                    if taken:
                        return val
                    continue
            r, m = self.solve()
            solve = self.solve
            if r == "unknown":  # nonlinear terms taken as unconstrained: every value that can occur is still listed
                solve = self.solve_abstract
                r, m = solve([], e)
            if r != "sat":
                if r == "unsat":
                    raise PathInfeasible()
                raise EngineLimit("integer enumeration: solver gave unknown")
            if solve == self.solve_abstract:
                val, m = m, None
            else:
                val = m.eval(e, model_completion=True).as_long()
            r2, _ = solve([e != val])
            if r2 != "unsat":
                self.alternatives.append(self.decisions + [(val, False)])
            self.pos += 1
            self.decisions.append((val, True))
            self.path.append(e == val)
            self.model = m
            return val
        raise EngineLimit("integer enumeration limit")

    # ---- assertions
    def _record(self, name, status, model=None, extra=None):
        rec = {"name": name, "status": status}
        if model is not None:
            rec["inputs"] = self.extract(model, extra)
        self.results.append(rec)
        return rec

    def prove(self, good, name):
        """good: z3 Bool that must hold on the whole path."""
        good = self.tidy(good)
        if z3.is_true(good):
            self._record(name, "unsat")
            return
        bad = z3.Not(good)
        tmo = self.check_budget or max(self.timeout_ms, 8000)
        r, m = self.solve([bad], timeout_ms=tmo)
        if r == "unknown":
            r, m = self.solve_hard([bad])
        if r == "sat":
            m = self.polish(m, bad)
            self._record(name, "sat", m, bad)
        else:
            self._record(name, r)
            if r == "unknown":
                self.results[-1]["path_inputs"] = self.path_inputs()

    def solve_hard(self, extra):
        """second opinion on a nonlinear query the default strategy did not finish"""
        best = ("unknown", None)
        for mk_solver in (lambda: z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "qfnra-nlsat").solver(),):
            try:
                s = mk_solver()
                s.set("timeout", min(max(self.timeout_ms, 8000), max(50, int((self.deadline - time.time()) * 1000)) if self.deadline else 8000))
                s.add(*self.path, *extra)
                t0 = time.time()
                r = checked(s)
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t0
                if r == z3.unsat:
                    return "unsat", None
                if r == z3.sat:
                    return "sat", s.model()
            except z3.Z3Exception:
                pass
        return best

    def path_inputs(self):
        r, m = self.solve()
        return self.extract(m) if m is not None else None

    def true(self, cond, name):
        if type(cond) in (SymBool, SymNum):
            self.prove(zb(cond), name)
        elif bool(cond):
            self._record(name, "unsat")
        else:
            # definitely false on this path: any input of the path is a counterexample
            r, m = self.solve()
            if r == "unsat":
                raise PathInfeasible()
            if m is not None:
                m = self.polish(m, TRUE)
                self._record(name, "sat", m)
            else:
                self._record(name, "unknown")

    def eq(self, a, b, name, tol=1e-6):
        sa, sb = special(a), special(b)
        if sa is not None or sb is not None:
            same = sa is not None and sb is not None and sa == sb
            return self.true(same, name)
        if kind_of(a) is None or kind_of(b) is None:
            return self.true(a == b, name)
        if not is_sym(a) and not is_sym(b):
            return self.true(abs(frac(a) - frac(b)) <= frac(tol), name)
        d = zr(a) - zr(b)

        nf = poly.normal(d, self)
        d = z3.simplify(d, som=True) if nf is None else nf[0]
        t = q(tol)
        return self.prove(z3.And(d <= t, d >= -t), name)

    def norm(self, x):
        if not is_sym(x):
            return x

        nf = poly.normal(zr(x), self)
        return x if nf is None else mk(z3.simplify(nf[0]), "f")

    def le(self, a, b, name, tol=1e-6):
        sa, sb = special(a), special(b)
        if sa is not None or sb is not None:
            if sa is not None and math.isnan(sa) or sb is not None and math.isnan(sb):
                return self.true(False, name)
            ok = (sa == -math.inf) or (sb == math.inf) or (sa is not None and sb is not None and sa <= sb)
            return self.true(bool(ok), name)
        if not is_sym(a) and not is_sym(b):
            return self.true(frac(a) <= frac(b) + frac(tol), name)
        return self.prove(zr(a) <= zr(b) + q(tol), name)

    def ge(self, a, b, name, tol=1e-6):
        return self.le(b, a, name, tol)

    def reach(self, name="end"):
        """reachability witness: the path condition here is satisfiable"""
        if name in self.reached:
            return
        if self.feasible() and self.model is not None:
            self.reached.add(name)

    def note(self, k, v):
        self.notes[k] = v

    # ---- models
    def extract(self, model, extra=None):
        out = {}
        for n, i in self.inputs.items():
            f = ev_frac(model, i.var)
            if f is None:
                continue
            out[n] = f"{f.numerator}/{f.denominator}"
        return out

    def polish(self, model, bad, limit_s=8.0):
        """Look for an equivalent counterexample with short decimal inputs and with angles consistent with their
        sines and cosines (the encoding relates an angle to its sine/cosine only through algebraic axioms)."""
        from symx import mathx

        t_end = time.time() + limit_s
        fixed: List[z3.BoolRef] = []
        extra = [bad]

        def attempt(cs, tmo=700):
            if time.time() > t_end:
                return None
            s = z3.Solver()
            s.set("timeout", tmo)
            s.add(*self.path, *extra, *fixed, *cs)
            try:
                return s.model() if checked(s) == z3.sat else None
            except z3.Z3Exception:
                return None

        # prefer a point well inside every inequality of the path: it survives the rounding of the real code
        for margin in (Fraction(1, 500), Fraction(1, 10**6)):
            inner = [x for x in (interior(c, margin) for c in self.path) if x is not None]
            if not inner:
                break
            m2 = attempt(inner, 1500)
            if m2 is not None:
                fixed.extend(inner)
                model = m2
                break
        m = mathx.fix_angles(self, model, attempt, fixed)
        for n, i in self.inputs.items():
            f = ev_frac(m, i.var)
            if f is None or i.kind == "i":
                continue
            if f.denominator <= 64 and abs(f.numerator) < 10**6:
                fixed.append(i.var == q(f))
                continue
            for dig in (0, 1, 2, 3, 5):
                g = Fraction(round(f * 10**dig), 10**dig)
                m2 = attempt([i.var == q(g)], 400)
                if m2 is not None:
                    fixed.append(i.var == q(g))
                    m = m2
                    break
        return m


from symx import poly  # noqa: E402  (it needs the names above)

"""Installation of the symbolic stand-ins into the global namespaces of the real modules (in memory only)."""
from __future__ import annotations

import builtins
import copy
import functools
import math
import sys
import types
from decimal import Decimal

import numpy as np
import z3

from symx import core, mathx, npx
from symx.core import SymNum, has_sym, is_sym, mk, zr

PREFIXES = ("dg_commons", "geometry")


def _in_scope(name):
    if name.startswith("dg_commons_tests"):
        return False
    return any(name == p or name.startswith(p + ".") for p in PREFIXES)


# ---------------------------------------------------------------------------------------------- number constructors
class _NumMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls._real)

    def __subclasscheck__(cls, c):
        return issubclass(c, cls._real) if c is not cls else True

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, n):
        return getattr(cls._real, n)

    def __repr__(cls):
        return repr(cls._real)

    def __call__(cls, *a, **k):
        if a and is_sym(a[0]):
            return cls._conv(a[0])
        if a and isinstance(a[0], np.ndarray) and a[0].dtype == object and a[0].size == 1 and is_sym(a[0].item()):
            return cls._conv(a[0].item())
        return cls._real(*a, **k)

    def __or__(cls, o):
        return cls._real | o

    def __ror__(cls, o):
        return o | cls._real


class FloatShim(metaclass=_NumMeta):
    _real = float
    _conv = staticmethod(lambda x: mk(zr(x), "f"))


class DecimalShim(metaclass=_NumMeta):
    _real = Decimal
    _conv = staticmethod(lambda x: mk(zr(x), "d"))


class IntShim(metaclass=_NumMeta):
    _real = int
    _conv = staticmethod(lambda x: mk(core.trunc_e(x if type(x) is SymNum else x._n()), "i"))


class TypeShim(metaclass=_NumMeta):
    _real = type
    _conv = staticmethod(lambda x: x.__class__)


# --------------------------------------------------------------------------------------------------------- math
def _wrapm(name, real, symf):
    def f(*a, **k):
        if any(is_sym(x) for x in a):
            return symf(*a, **k)
        if len(a) == 1 and has_sym(a[0]):
            return symf(*a, **k)
        return real(*a, **k)

    functools.update_wrapper(f, real, updated=())
    f.__wrapped_math__ = real
    return f


def _mfloor(x):
    return mk(core.floor_e(x), "i")


def _mceil(x):
    return mk(-core.floor_e(-x), "i")


def _fsum(xs):
    r = 0.0
    for x in xs:
        r = r + x
    return r


def _dist(p, q_):
    return mathx.hypot(*[a - b for a, b in zip(p, q_)])


MATH = {n: _wrapm(n, getattr(math, n), getattr(mathx, n)) for n in
        ("cos", "sin", "tan", "sqrt", "hypot", "atan", "atan2", "asin", "acos", "exp", "log", "tanh", "sinh", "cosh",
         "copysign", "fmod", "isclose", "isnan", "isinf", "isfinite", "radians", "degrees")}
MATH["floor"] = _wrapm("floor", math.floor, _mfloor)
MATH["ceil"] = _wrapm("ceil", math.ceil, _mceil)
MATH["trunc"] = _wrapm("trunc", math.trunc, lambda x: mk(core.trunc_e(x), "i"))
MATH["fabs"] = _wrapm("fabs", math.fabs, abs)
MATH["pow"] = _wrapm("pow", math.pow, lambda a, b: a**b)
MATH["fsum"] = _wrapm("fsum", math.fsum, _fsum)
MATH["dist"] = lambda p, q_: _dist(p, q_) if has_sym(p) or has_sym(q_) else math.dist(p, q_)


class MathProxy:
    __name__ = "math"

    def __getattr__(self, n):
        return MATH[n] if n in MATH else getattr(math, n)


math_proxy = MathProxy()
linalg_proxy = npx.NpProxy(np.linalg, npx.LINALG, prefix="np.linalg")
np_proxy = npx.NpProxy(np, npx.OVER, {"linalg": linalg_proxy})

_idmap = {id(math): math_proxy, id(np): np_proxy, id(np.linalg): linalg_proxy}
_keep = []
for _n, _f in MATH.items():
    _idmap[id(getattr(math, _n))] = _f
for _n in dir(np):
    if _n.startswith("_"):
        continue
    try:
        _v = getattr(np, _n)
    except Exception:
        continue
    if callable(_v) and not isinstance(_v, type) and (_n in npx.OVER or _n in npx._un or _n in npx._bi or _n in npx.FILL):
        _keep.append(_v)
        _idmap.setdefault(id(_v), getattr(np_proxy, _n))
for _n in npx.LINALG:
    _v = getattr(np.linalg, _n)
    _keep.append(_v)
    _idmap[id(_v)] = getattr(linalg_proxy, _n)
_idmap[id(Decimal)] = DecimalShim


def modules():
    return [m for n, m in list(sys.modules.items()) if isinstance(m, types.ModuleType) and _in_scope(n)]


_installed = []


def _set(d, k, v):
    _installed.append((d, k, d.get(k, _MISSING)))
    d[k] = v


_MISSING = object()
_real_import = builtins.__import__


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    m = _real_import(name, globals, locals, fromlist, level)
    if core.CUR is not None and globals is not None and _in_scope(globals.get("__name__", "") or ""):
        if m is math:
            return math_proxy
        if m is np and not fromlist:
            return np_proxy
        if m is np:
            return np_proxy
        if name == "decimal" and fromlist:
            ns = types.SimpleNamespace(**{k: getattr(m, k) for k in dir(m) if not k.startswith("__")})
            ns.Decimal = DecimalShim
            return ns
        if m is np.linalg:
            return linalg_proxy
    return m


def install():
    """patch; undone by uninstall()"""
    if _installed:
        return
    for m in modules():
        g = m.__dict__
        for k, v in list(g.items()):
            r = _idmap.get(id(v))
            if r is not None:
                _set(g, k, r)
            elif isinstance(v, types.FunctionType) and v.__module__ and _in_scope(v.__module__):
                _defaults(v)
        _set(g, "float", FloatShim)
        _set(g, "int", IntShim)
        if m.__name__.startswith("dg_commons"):
            _set(g, "type", TypeShim)
    builtins.__import__ = _import


def _defaults(fn):
    pass


def uninstall():
    builtins.__import__ = _real_import
    while _installed:
        d, k, old = _installed.pop()
        if old is _MISSING:
            d.pop(k, None)
        else:
            d[k] = old


# ----------------------------------------------------------------------------------------- stubs chosen by harnesses
class replaced:
    """Context manager: every global of the code under test (and of the providing module) that refers to `orig`
    refers to `new` instead."""

    def __init__(self, orig, new, home=True):
        self.orig, self.new, self.home = orig, new, home
        self.undo = []

    def __enter__(self):
        for m in modules():
            g = m.__dict__
            for k, v in list(g.items()):
                if v is self.orig:
                    self.undo.append((g, k, v))
                    g[k] = self.new
        home = sys.modules.get(getattr(self.orig, "__module__", None) or "") if self.home else None
        if home is not None:
            mods = [home] + [m for n, m in list(sys.modules.items()) if n.startswith(home.__name__.split(".")[0] + ".") and isinstance(m, types.ModuleType)]
            for m in mods:
                for k, v in list(getattr(m, "__dict__", {}).items()):
                    if v is self.orig and not _in_scope(m.__name__):
                        self.undo.append((m.__dict__, k, v))
                        m.__dict__[k] = self.new
        return self

    def __exit__(self, *a):
        for g, k, v in reversed(self.undo):
            g[k] = v
        return False


# --------------------------------------------------------------------------------------- isolation between the paths
_snap = None
_caches = None


def snapshot():
    """remember mutable module and class attributes, and the lru caches, of the code under test"""
    global _snap, _caches
    _snap, _caches = [], []
    seen = set()
    for m in modules():
        if not m.__name__.startswith("dg_commons"):
            continue
        for k, v in list(m.__dict__.items()):
            if k.startswith("__"):
                continue
            _scan(m, k, v)
            if isinstance(v, type) and getattr(v, "__module__", "").startswith("dg_commons") and v not in seen:
                seen.add(v)
                for kk, vv in list(v.__dict__.items()):
                    if not kk.startswith("__"):
                        _scan(v, kk, vv)


def _scan(owner, k, v):
    if isinstance(v, (staticmethod, classmethod)):
        v = v.__func__
    if isinstance(v, property):
        v = v.fget
    f = v
    for _ in range(4):
        if hasattr(f, "cache_clear"):
            _caches.append(f)
        f = getattr(f, "__wrapped__", None)
        if f is None:
            break
    if type(v) in (dict, list, set) or type(v).__name__ in ("defaultdict", "OrderedDict"):
        try:
            _snap.append((owner, k, v, copy.deepcopy(v)))
        except Exception:
            pass
    elif v is None or type(v) in (int, float, bool, str, Decimal):
        if isinstance(owner, type):
            _snap.append((owner, k, v, _MISSING))
    elif hasattr(v, "__dict__") and not isinstance(v, (type, types.FunctionType, types.ModuleType)) and type(v).__module__.startswith("dg_commons") and isinstance(owner, type):
        try:
            _snap.append((owner, k, v, copy.deepcopy(v)))
        except Exception:
            pass


def restore():
    for owner, k, v, saved in _snap or ():
        try:
            if saved is _MISSING:
                if owner.__dict__.get(k, _MISSING) is not v:
                    setattr(owner, k, v)
                continue
            if type(v) is dict or isinstance(v, dict):
                v.clear()
                v.update(copy.deepcopy(saved))
            elif isinstance(v, list):
                v[:] = copy.deepcopy(saved)
            elif isinstance(v, set):
                v.clear()
                v.update(copy.deepcopy(saved))
            else:
                v.__dict__.clear()
                v.__dict__.update(copy.deepcopy(saved).__dict__)
            if isinstance(owner, type) and owner.__dict__.get(k) is not v:
                setattr(owner, k, v)
        except Exception:
            pass
    for f in _caches or ():
        f.cache_clear()

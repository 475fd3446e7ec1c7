"""Helpers that work on plain numbers and on symbolic values alike."""
import math

from symx import mathx
from symx.core import is_sym, mk, zr


def F(x):
    """as float"""
    return mk(zr(x), "f") if is_sym(x) else float(x)


def cos(x):
    return mathx.cos(x) if is_sym(x) else math.cos(x)


def sin(x):
    return mathx.sin(x) if is_sym(x) else math.sin(x)


def tan(x):
    return mathx.tan(x) if is_sym(x) else math.tan(x)


def sqrt(x):
    return mathx.sqrt(x) if is_sym(x) else math.sqrt(x)


def state(ctx, cls, fields, tag="", lo=-10, hi=10, rng=None, **fixed):
    rng = rng or {}
    kw = {}
    for f in fields:
        l, h = rng.get(f, (lo, hi))
        kw[f] = fixed[f] if f in fixed else ctx.real(f + tag, l, h)
    return cls(**kw)


def same_angle(ctx, a, b, name, tol=1e-6):
    ctx.eq(cos(a), cos(b), name + " (cos)", tol)
    ctx.eq(sin(a), sin(b), name + " (sin)", tol)

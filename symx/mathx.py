"""Symbolic mathematical functions.

Sine and cosine are algebraic: each base angle owns a pair (c, s) with c^2+s^2=1, sums of angles are expanded with the
addition theorems, integer multiples with recurrences; square roots and inverse functions are fresh reals tied by
their defining equations.  Everything else is an uninterpreted value with the monotonicity/sign facts listed here."""
from __future__ import annotations

import math
from decimal import Decimal
from fractions import Fraction

import z3

from symx import core, poly
from symx.core import EngineLimit, SymBool, SymNum, cur, ev_frac, frac, is_sym, kind_of, mk, q, special, z, zr

PI = Fraction(repr(math.pi))


def _const(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def const_cs(f: Fraction):
    """a point of the unit circle with rational coordinates, within 1e-9 of (cos f, sin f)"""
    v = float(f)
    c, s = math.cos(v), math.sin(v)
    for cc, ss in ((1, 0), (0, 1), (-1, 0), (0, -1)):
        if abs(c - cc) < 1e-12 and abs(s - ss) < 1e-12:
            return Fraction(cc), Fraction(ss)
    for k in (1, 3, 5, 7):  # 45 degree multiples still need a rational point: fall through
        pass
    t = Fraction(s / (1 + c)).limit_denominator(10**6) if c > -0.5 else None
    if t is not None:
        return (1 - t * t) / (1 + t * t), 2 * t / (1 + t * t)
    t = Fraction((1 + c) / s).limit_denominator(10**6)  # cot(v/2)
    return (t * t - 1) / (t * t + 1), 2 * t / (1 + t * t)


def linear_terms(e):
    e = z3.simplify(e, som=True)
    const, terms = Fraction(0), []

    def add(t, coef):
        nonlocal const
        c = _const(t) if (z3.is_rational_value(t) or z3.is_int_value(t)) else None
        if c is not None:
            const += coef * c
            return
        if z3.is_add(t):
            for ch in t.children():
                add(ch, coef)
            return
        if z3.is_mul(t):
            num, rest = Fraction(1), []
            for ch in t.children():
                cv = _const(ch) if (z3.is_rational_value(ch) or z3.is_int_value(ch)) else None
                if cv is not None:
                    num *= cv
                else:
                    rest.append(ch)
            if num != 1 and rest:
                r = rest[0]
                for x in rest[1:]:
                    r = r * x
                add(r, coef * num)
                return
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            add(t.arg(0), -coef)
            return
        terms.append((coef, t))

    add(e, Fraction(1))
    merged = {}
    for cf, t in terms:
        k = t.get_id()
        merged[k] = (merged[k][0] + cf, t) if k in merged else (cf, t)
    return const, [v for v in merged.values() if v[0] != 0]


def base_cs(t):
    """(c, s) of a base angle term"""
    ctx = cur()
    t = z3.simplify(t)
    k = t.get_id()
    if k in ctx.trig:
        return ctx.trig[k][:2]
    neg = z3.simplify(-t, som=True)
    ctx.keep += [t, neg]
    if neg.get_id() in ctx.trig:
        c, s = ctx.trig[neg.get_id()][:2]
        return c, -s
    c, s = ctx.fresh("cos"), ctx.fresh("sin")
    ctx.trig[k] = (c, s, t)
    ctx.keep.append(t)
    ctx.add(c * c + s * s == 1)
    poly.add_rule(ctx, s, 1 - c * c)
    ctx.bounds[c.get_id()] = ctx.bounds[s.get_id()] = (Fraction(-1), Fraction(1))
    ctx.add(c <= 1), ctx.add(c >= -1), ctx.add(s <= 1), ctx.add(s >= -1)
    quadrants(ctx, c, s, t)
    return c, s


def quadrants(ctx, c, s, t):
    p, h = q(PI), q(PI / 2)
    ctx.add(z3.Implies(t == 0, z3.And(c == 1, s == 0)))
    ctx.add(z3.Implies(t == h, z3.And(c == 0, s == 1)))
    ctx.add(z3.Implies(t == -h, z3.And(c == 0, s == -1)))
    ctx.add(z3.Implies(z3.Or(t == p, t == -p), z3.And(c == -1, s == 0)))
    ctx.add(z3.Implies(z3.And(t > -h, t < h), c > 0))
    ctx.add(z3.Implies(z3.And(t > 0, t < p), s > 0))
    ctx.add(z3.Implies(z3.And(t < 0, t > -p), s < 0))
    ctx.add(z3.Implies(z3.And(t > h, t < p + h), c < 0))
    ctx.add(z3.Implies(z3.And(t < -h, t > -p - h), c < 0))


def _mult(c, s, n):
    """cos/sin of n times the angle"""
    if n < 0:
        c2, s2 = _mult(c, s, -n)
        return c2, -s2
    cc, ss = q(1), q(0)
    for i in range(n):
        cc, ss = (c, s) if i == 0 else (cc * c - ss * s, ss * c + cc * s)
    return cc, ss


def cs(x):
    ctx = cur()
    e = zr(x)
    e0 = z3.simplify(e)
    key = ("cs", e0.get_id())
    if key in ctx.mathmemo:
        return ctx.mathmemo[key]
    ctx.keep.append(e0)
    n = poly.normal(e, ctx)
    if n is not None and all(len(m) <= 1 and all(k == 1 for _, k in m) for m in n[1]):
        e = n[0]  # a linear combination in disguise
    const, terms = linear_terms(e)
    C, S = None, None
    if const != 0 or not terms:
        cf, sf = const_cs(const)
        C, S = q(cf), q(sf)
    for coef, t in terms:
        if coef.denominator == 1 and abs(coef) <= 8:
            c, s = base_cs(t)
            c, s = _mult(c, s, int(coef))
        else:
            # is the angle an integer multiple of / fraction of a known one?
            c, s = base_cs(t * q(abs(coef)))
            if coef < 0:
                s = -s
        C, S = (c, s) if C is None else (C * c - S * s, S * c + C * s)
    r = (z3.simplify(C, som=True), z3.simplify(S, som=True))
    ctx.keep += [r[0], r[1], z3.simplify(e)]
    ctx.mathmemo[("csarg", key[1])] = z3.simplify(e)
    ctx.mathmemo[key] = r
    nc, ns = poly.normal(r[0], ctx), poly.normal(r[1], ctx)
    if nc is not None and ns is not None:
        ctx.mathmemo.setdefault(_cs_key(nc, ns), ctx.mathmemo[("csarg", key[1])])
    return r


def _cs_key(nc, ns):
    return ("cspoly", frozenset(nc[1].items()), frozenset(ns[1].items()))


def _chk(x):
    sp = special(x)
    if sp is not None:
        raise ValueError("math domain error")


def cos(x):
    _chk(x)
    return mk(cs(x)[0], "f")


def sin(x):
    _chk(x)
    return mk(cs(x)[1], "f")


def tan(x):
    ctx = cur()
    t = ctx.mathmemo.get(("tan of", z3.simplify(zr(x)).get_id()))
    if t is not None:
        return mk(t, "f")
    c, s = cs(x)
    cc = _const(c)
    if cc is not None:
        return mk(s * q(1 / cc), "f")
    ctx.add(c != 0)
    return mk(ctx.quotient(s, c), "f")


def memo(tag, *es):
    es = [z3.simplify(e, som=True) for e in es]
    ctx = cur()
    key = (tag,) + tuple(e.get_id() for e in es)
    ctx.keep += es
    return key, ctx.mathmemo.get(key)


def sqrt(x):
    sp = special(x)
    if sp is not None:
        return math.sqrt(sp)
    k = "d" if kind_of(x) == "d" else "f"
    ctx = cur()
    e = z3.simplify(zr(x))
    c = _const(e)
    if c is not None:
        if c < 0:
            raise ValueError("math domain error")
        r = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if r[0] ** 2 == c.numerator and r[1] ** 2 == c.denominator:
            return mk(q(Fraction(*r)), k)
    key, r = memo("sqrt", e)
    if r is None:
        t = poly.square_root(e, ctx) if c is None else None
        if t is not None:
            lo, hi = core.interval(t)
            if lo is not None and lo >= 0:
                r = t
            elif hi is not None and hi <= 0:
                r = z3.simplify(-t)
            else:
                r = t if ctx.branch(t >= 0) else z3.simplify(-t)
            ctx.mathmemo[key] = r
            return mk(r, k)
        if c is None and ctx.branch(e < 0):
            raise ValueError("math domain error")
        r = ctx.fresh("sqrt")
        ctx.bounds[r.get_id()] = (Fraction(0), None)
        ctx.add(r >= 0)
        ctx.add(r * r == e)
        poly.add_rule(ctx, r, e)
        ctx.mathmemo[key] = r
    return mk(r, k)


def hypot(*xs):
    t = None
    for x in xs:
        t = x * x if t is None else t + x * x
    return sqrt(t if is_sym(t) else mk(q(t), "f"))


def _angle_var(tag, lo, hi):
    ctx = cur()
    th = ctx.fresh(tag)
    ctx.add(th >= q(lo))
    ctx.add(th <= q(hi))
    return th


def atan(x):
    e = zr(x)
    if _const(e) == 0:
        return mk(q(0), "f")
    key, r = memo("atan", e)
    ctx = cur()
    if r is None:
        _, neg = memo("atan", -e)
        if neg is not None:
            return mk(-neg, "f")
        r = _angle_var("atan", -PI / 2, PI / 2)
        c, s = base_cs(r)
        ctx.add(c > 0)
        ctx.add(s == c * e)
        ctx.add((r > 0) == (e > 0))
        ctx.add((r < 0) == (e < 0))
        # |atan x| <= |x|
        ctx.add(z3.If(e >= 0, r <= e, r >= e))
        for kk, (ee, rr) in list(ctx.mathmemo.get("atans", {}).items()):
            ctx.add(z3.Implies(e > ee, r > rr))
            ctx.add(z3.Implies(e < ee, r < rr))
            ctx.add(z3.Implies(e == ee, r == rr))
        ctx.mathmemo.setdefault("atans", {})[key] = (e, r)
        ctx.mathmemo[("tan of", z3.simplify(r).get_id())] = e
        ctx.mathmemo[key] = r
    return mk(r, "f")


def _known_angle(ctx, ey, ex):
    ey, ex = z3.simplify(ey, som=True), z3.simplify(ex, som=True)
    for key, val in list(ctx.mathmemo.items()):
        if isinstance(key, tuple) and key[0] == "cs" and val[0].get_id() == ex.get_id() and val[1].get_id() == ey.get_id():
            return ctx.mathmemo[("csarg", key[1])] if ("csarg", key[1]) in ctx.mathmemo else None
    return None


def atan2(y, x):
    ey, ex = zr(y), zr(x)
    key, r = memo("atan2", ey, ex)
    ctx = cur()
    if r is None:
        nx, ny = poly.normal(ex, ctx), poly.normal(ey, ctx)
        known = _known_angle(ctx, ey, ex)
        if known is None and nx is not None and ny is not None:
            # a unit vector but for the rounding of floating point constants (cos(pi / 2) = 6e-17)
            tx, ty = poly.snapped(nx, ctx), poly.snapped(ny, ctx)
            if tx is not nx or ty is not ny:
                one = poly.normal(tx[0] * tx[0] + ty[0] * ty[0], ctx)
                if one is not None and one[1] == {(): Fraction(1)}:
                    nx, ny = tx, ty
        if known is None and nx is not None and ny is not None:
            known = ctx.mathmemo.get(_cs_key(nx, ny))
            if known is None and ny[1] == {} and nx[1] != {}:
                # along the first axis
                lo, hi = core.interval(z3.simplify(nx[0]))
                if lo is not None and lo > 0:
                    known = q(0)
        if known is not None:
            lo, hi = core.interval(z3.simplify(known))
            if lo is not None and hi is not None and lo > -frac(PI) and hi <= frac(PI):
                ctx.mathmemo[key] = known
                return mk(known, "f")
            # atan2(sin t, cos t): t up to whole turns
            r = _angle_var("wrap", -PI, PI)
            k = ctx.fresh("turn", "i")
            ctx.add(r == known + q(2 * PI) * z3.ToReal(k))
            ctx.add(r > q(-PI))
            ctx.add(z3.Implies(z3.And(known > q(-PI), known <= q(PI)), k == 0))
            kk, rr = memo("atan2", ey, ex)
            ctx.mathmemo[kk] = r
            c, s = cs(mk(known, "f"))
            rs = z3.simplify(r)
            ctx.keep.append(rs)
            ctx.mathmemo[("cs", rs.get_id())] = (c, s)
            ctx.trig.setdefault(rs.get_id(), (c, s, rs))
            return mk(r, "f")
        ex, ey = (nx[0] if nx else ex), (ny[0] if ny else ey)
        unit = poly.normal(ex * ex + ey * ey, ctx)
        if unit is not None and unit[1] == {(): Fraction(1)}:
            # a unit vector: its angle has it as cosine and sine
            r = _angle_var("atan2u", -PI, PI)
            ctx.add(r > q(-PI))
            rid = z3.simplify(r).get_id()
            ctx.keep.append(z3.simplify(r))
            quadrants(ctx, ex, ey, r)
            for c2, s2, t2 in list(ctx.trig.values()):
                ctx.add(z3.Implies(z3.And(ex == c2, ey == s2, t2 > q(-PI), t2 <= q(PI)), r == t2))
            ctx.trig[rid] = (ex, ey, r)
            ctx.mathmemo[key] = r
            return mk(r, "f")
        rho = poly.square_root(ex * ex + ey * ey, ctx) if unit is not None and len(unit[1]) == 1 else None
        if rho is not None and not ctx.branch(rho == 0):
            # a monomial multiple of a unit vector
            if not ctx.branch(rho > 0):
                rho = -rho
            c, s = ctx.quotient(ex, rho), ctx.quotient(ey, rho)
            r = zr(atan2(mk(s, "f"), mk(c, "f")))
            ctx.mathmemo[key] = r
            return mk(r, "f")
        r = _angle_var("atan2", -PI, PI)
        c, s = base_cs(r)
        rho = ctx.fresh("rho")
        ctx.add(rho >= 0)
        ctx.add(rho * rho == ex * ex + ey * ey)
        ctx.add(rho * c == ex)
        ctx.add(rho * s == ey)
        ctx.add(z3.Implies(z3.And(ex == 0, ey == 0), r == 0))
        ctx.add(z3.Implies(ey > 0, z3.And(r > 0, r < q(PI))))
        ctx.add(z3.Implies(ey < 0, z3.And(r < 0, r > -q(PI))))
        ctx.add(z3.Implies(z3.And(ey == 0, ex >= 0), r == 0))
        ctx.add(z3.Implies(z3.And(ey == 0, ex < 0), r == q(PI)))
        ctx.add(z3.Implies(ex > 0, z3.And(r < q(PI / 2), r > -q(PI / 2))))
        ctx.add(z3.Implies(ex < 0, z3.Or(r > q(PI / 2), r < -q(PI / 2))))
        for c2, s2, t2 in list(ctx.trig.values()):
            if t2.get_id() != r.get_id():
                ctx.add(z3.Implies(z3.And(c == c2, s == s2, t2 > q(-PI), t2 <= q(PI)), r == t2))
        ctx.mathmemo[key] = r
    return mk(r, "f")


def asin(x):
    e = zr(x)
    key, r = memo("asin", e)
    ctx = cur()
    if r is None:
        if ctx.branch(z3.Or(e > 1, e < -1)):
            raise ValueError("math domain error")
        r = _angle_var("asin", -PI / 2, PI / 2)
        c, s = base_cs(r)
        ctx.add(c >= 0)
        ctx.add(s == e)
        ctx.mathmemo[key] = r
    return mk(r, "f")


def acos(x):
    e = zr(x)
    key, r = memo("acos", e)
    ctx = cur()
    if r is None:
        if ctx.branch(z3.Or(e > 1, e < -1)):
            raise ValueError("math domain error")
        r = _angle_var("acos", 0, PI)
        c, s = base_cs(r)
        ctx.add(s >= 0)
        ctx.add(c == e)
        ctx.mathmemo[key] = r
    return mk(r, "f")


def _uf(name, x, facts):
    """uninterpreted monotone increasing function with extra facts(e, r)"""
    e = zr(x)
    key, r = memo(name, e)
    ctx = cur()
    if r is None:
        r = ctx.fresh(name)
        for f in facts(e, r):
            ctx.add(f)
        for kk, (ee, rr) in list(ctx.mathmemo.get(name + "s", {}).items()):
            ctx.add(z3.Implies(e > ee, r > rr))
            ctx.add(z3.Implies(e < ee, r < rr))
            ctx.add(z3.Implies(e == ee, r == rr))
        ctx.mathmemo.setdefault(name + "s", {})[key] = (e, r)
        ctx.mathmemo[key] = r
    return mk(r, "f")


def exp(x):
    return _uf("exp", x, lambda e, r: [r > 0, r >= 1 + e, (e > 0) == (r > 1), (e == 0) == (r == 1)])


def log(x, base=None):
    if base is not None:
        raise EngineLimit("log with base")
    if cur().branch(zr(x) <= 0):
        raise ValueError("math domain error")
    return _uf("log", x, lambda e, r: [r <= e - 1, (e > 1) == (r > 0), (e == 1) == (r == 0)])


def tanh(x):
    return _uf("tanh", x, lambda e, r: [r < 1, r > -1, (e > 0) == (r > 0), (e == 0) == (r == 0)])


def sinh(x):
    return _uf("sinh", x, lambda e, r: [(e > 0) == (r > 0), (e == 0) == (r == 0)])


def cosh(x):
    raise EngineLimit("cosh")


def pow_general(a, b):
    """a**b for non-integer exponents: value tied by the integer powers when b is a small rational"""
    if is_sym(b):
        raise EngineLimit("symbolic exponent")
    f = frac(b)
    ctx = cur()
    e = zr(a)
    if f.denominator > 6 or abs(f.numerator) > 12:
        raise EngineLimit("exponent")
    if ctx.branch(e < 0):
        raise EngineLimit("negative base with fractional exponent")
    r = ctx.fresh("root")
    ctx.add(r >= 0)
    p = r
    for _ in range(f.denominator - 1):
        p = p * r
    ctx.add(p == e)
    n = abs(f.numerator)
    out = r
    for _ in range(n - 1):
        out = out * r
    res = mk(out, "f")
    return 1 / res if f < 0 else res


def radians(x):
    return x * (math.pi / 180)


def degrees(x):
    return x * (180 / math.pi)


def sign(x):
    e = zr(x)
    return mk(z3.If(e > 0, q(1), z3.If(e < 0, q(-1), q(0))), kind_of(x))


def square(x):
    return x * x


def isnan(x):
    sp = special(x)
    return sp is not None and math.isnan(sp)


def isinf(x):
    sp = special(x)
    return sp is not None and math.isinf(sp)


def isfinite(x):
    return special(x) is None


def copysign(x, y):
    # the sign of zero is positive in the real-number model
    ex, ey = zr(abs(x)), zr(y)
    return mk(z3.If(ey >= 0, ex, -ex), "f")


def fmod(x, y):
    a, b = zr(x), zr(y)
    if core.is_zero_const(b):
        raise ValueError("math domain error")
    r = a / b
    n = z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
    return mk(a - b * z3.ToReal(n), "f")


def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    sa, sb = special(a), special(b)
    if sa is not None or sb is not None:
        return sa is not None and sb is not None and sa == sb
    ea, eb = zr(a), zr(b)
    ab = core.abs_term
    m = z3.If(ab(ea) >= ab(eb), ab(ea), ab(eb))
    d = ab(ea - eb)
    return SymBool(z3.Or(d <= zr(rel_tol) * m, d <= zr(abs_tol)))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    sa, sb = special(a), special(b)
    if sa is not None or sb is not None:
        return sa is not None and sb is not None and sa == sb
    ea, eb = zr(a), zr(b)
    ab = core.abs_term
    return SymBool(ab(ea - eb) <= zr(atol) + zr(rtol) * ab(eb))


def vmax(a, b):
    """max as a term (no fork)"""
    if special(a) is not None or special(b) is not None:
        return a if bool(a >= b) else b
    k = core._bin_kind(a, b)
    lo, hi = core.interval(zr(a) - zr(b))
    if lo is not None and lo >= 0:
        return mk(zr(a), "f" if k == "i" else k)
    if hi is not None and hi <= 0:
        return mk(zr(b), "f" if k == "i" else k)
    return mk(z3.If(zr(a) >= zr(b), zr(a), zr(b)), "f" if k == "i" else k)


def vmin(a, b):
    if special(a) is not None or special(b) is not None:
        return a if bool(a <= b) else b
    k = core._bin_kind(a, b)
    lo, hi = core.interval(zr(a) - zr(b))
    if lo is not None and lo >= 0:
        return mk(zr(b), "f" if k == "i" else k)
    if hi is not None and hi <= 0:
        return mk(zr(a), "f" if k == "i" else k)
    return mk(z3.If(zr(a) <= zr(b), zr(a), zr(b)), "f" if k == "i" else k)


def fix_angles(ctx, model, attempt, fixed):
    """Choose input values for the angles so that angle, sine and cosine agree (needed for a replayable model)."""
    inputs = {i.var.get_id(): i for i in ctx.inputs.values()}
    for k, (c, s, t) in list(ctx.trig.items()):
        inp = inputs.get(t.get_id())
        coef = Fraction(1)
        if inp is None:
            const, terms = linear_terms(t)
            if len(terms) == 1 and terms[0][1].get_id() in inputs:
                coef = terms[0][0]
                inp = inputs[terms[0][1].get_id()]
            else:
                continue
        mc, ms = ev_frac(model, c), ev_frac(model, s)
        cands = []
        if mc is not None and ms is not None:
            a0 = math.atan2(float(ms), float(mc))
            mt = ev_frac(model, t)
            for kk in ([0, 1, -1] if mt is None else sorted([-1, 0, 1], key=lambda j: abs(a0 + 2 * math.pi * j - float(mt)))):
                cands.append(round(a0 + 2 * math.pi * kk, 6))
                cands.append(round(a0 + 2 * math.pi * kk, 2))
            mt = float(mt) if mt is not None else 0.0
            cands.append(round(mt, 4))
        cands += [0.0, 0.3, -0.4, 1.0, -1.1, 2.0, -2.2, 0.05, -0.05, math.pi / 2, -math.pi / 2, 3.0, math.pi]
        seen = set()
        for v in cands:
            f = Fraction(repr(v))
            if f in seen:
                continue
            seen.add(f)
            cf, sf = const_cs(f)
            cons = [t == q(f), c == q(cf), s == q(sf)]
            m2 = attempt(cons, 1500)
            if m2 is not None:
                fixed.extend(cons)
                model = m2
                break
    return model

"""Polynomial normal form of z3 real terms modulo s^2 = 1 - c^2 (trigonometric pairs) and r^2 = e (square roots).
Used only to simplify terms before they reach the solver."""
from __future__ import annotations

from fractions import Fraction

import z3

from symx import core
from symx.core import q

LIMIT = 3000


class TooBig(Exception):
    pass


def _num(t):
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_int_value(t):
        return Fraction(t.as_long())
    return None


def add(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * f
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mono_mul(m, n):
    d = dict(m)
    for k, e in n:
        d[k] = d.get(k, 0) + e
        if not d[k]:
            del d[k]
    return tuple(sorted(d.items()))


def mul(a, b, rules):
    if len(a) * len(b) > LIMIT * 4:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = _mono_mul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return reduce(r, rules)


def reduce(p, rules):
    if not rules:
        return p
    for _ in range(40):
        hit = None
        for m in p:
            for v, e in m:
                if e >= 2 and v in rules:
                    hit = (m, v, e)
                    break
            if hit:
                break
        if hit is None:
            return p
        out = {}
        for m, c in p.items():
            rv = next(((v, e) for v, e in m if e >= 2 and v in rules), None)
            if rv is None:
                v0 = out.get(m, 0) + c
                if v0:
                    out[m] = v0
                else:
                    out.pop(m, None)
                continue
            v, e = rv
            rest = tuple((a, b) for a, b in m if a != v)
            if e - 2:
                rest = tuple(sorted(rest + ((v, e - 2),)))
            for n, d in rules[v].items():
                k = _mono_mul(rest, n)
                v0 = out.get(k, 0) + c * d
                if v0:
                    out[k] = v0
                else:
                    out.pop(k, None)
        if len(out) > LIMIT:
            raise TooBig()
        p = out
    return p


def rules_of(ctx):
    """variable id -> polynomial its square equals"""
    return getattr(ctx, "sq_rules", {})


def to_poly(e, ctx, atoms, cache=None):
    cache = {} if cache is None else cache
    rules = rules_of(ctx)

    def rec(t):
        k = t.get_id()
        if k in cache:
            return cache[k]
        n = _num(t)
        if n is not None:
            r = {(): n} if n else {}
        elif z3.is_add(t):
            r = {}
            for c in t.children():
                r = add(r, rec(c))
        elif z3.is_sub(t):
            ch = t.children()
            r = rec(ch[0])
            for c in ch[1:]:
                r = add(r, rec(c), -1)
        elif t.decl().kind() == z3.Z3_OP_UMINUS:
            r = {m: -c for m, c in rec(t.arg(0)).items()}
        elif z3.is_mul(t):
            r = {(): Fraction(1)}
            for c in t.children():
                r = mul(r, rec(c), rules)
        elif t.decl().kind() == z3.Z3_OP_POWER and _num(t.arg(1)) is not None and _num(t.arg(1)).denominator == 1 and 0 <= _num(t.arg(1)) <= 8:
            b = rec(t.arg(0))
            r = {(): Fraction(1)}
            for _ in range(int(_num(t.arg(1)))):
                r = mul(r, b, rules)
        elif z3.is_div(t) and _num(t.arg(1)) not in (None, 0):
            f = 1 / _num(t.arg(1))
            r = {m: c * f for m, c in rec(t.arg(0)).items()}
        elif z3.is_div(t) and len(rec(t.arg(1))) == 1:
            # the engine builds a quotient only where its denominator is not zero: negative exponents
            (m, c), = rec(t.arg(1)).items()
            r = mul(rec(t.arg(0)), {tuple((k, -e) for k, e in m): 1 / c}, rules)
        elif t.decl().kind() == z3.Z3_OP_TO_REAL and _num(t.arg(0)) is not None:
            n = _num(t.arg(0))
            r = {(): n} if n else {}
        else:
            atoms[k] = t
            r = {((k, 1),): Fraction(1)}
        if len(r) > LIMIT:
            raise TooBig()
        cache[k] = r
        return r

    return rec(e)


def from_poly(p, atoms):
    if not p:
        return q(0)
    terms = []
    for m, c in sorted(p.items(), key=lambda kv: (len(kv[0]), kv[0])):
        t, den = None, None
        for k, e in m:
            for _ in range(e):
                t = atoms[k] if t is None else t * atoms[k]
            for _ in range(-e):
                den = atoms[k] if den is None else den * atoms[k]
        if t is None:
            t = q(c)
        elif c != 1:
            t = q(c) * t
        if den is not None:
            t = t / den
        terms.append(t)
    return terms[0] if len(terms) == 1 else z3.Sum(terms)


def normal(e, ctx):
    """(term, polynomial) with the trigonometric and root rules applied; None if it gets too big"""
    atoms = dict(getattr(ctx, "poly_atoms", {}))
    try:
        p = to_poly(e, ctx, atoms)
        p = reduce(p, rules_of(ctx))
        den = {}
        for m in p:
            for k, e in m:
                if e < 0:
                    den[k] = max(den.get(k, 0), -e)
        if any(k in rules_of(ctx) for k in den) and not mul(p, {tuple(sorted(den.items())): Fraction(1)}, rules_of(ctx)):
            p = {}  # zero once its denominators, which are not zero, are cleared
    except TooBig:
        return None
    ctx.keep += list(atoms.values())
    return from_poly(p, atoms), p


def snapped(n, ctx, tol=Fraction(1, 10**13)):
    """the polynomial (term, coefficients) with coefficients that are integers up to rounding made so"""
    p = {}
    for m, c in n[1].items():
        k = round(c)
        c = Fraction(k) if abs(c - k) < tol else c
        if c:
            p[m] = c
    if p == n[1]:
        return n
    atoms = {t.get_id(): t for t in ctx.keep}  # every atom is kept
    return from_poly(p, atoms), p


def add_rule(ctx, var, square_term):
    """record var^2 = square_term"""
    if not hasattr(ctx, "sq_rules"):
        ctx.sq_rules = {}
        ctx.poly_atoms = {}
    atoms = {}
    try:
        p = to_poly(square_term, ctx, atoms)
    except TooBig:
        return
    if any(k == var.get_id() for m in p for k, _ in m) or len(p) > 60:
        return
    ctx.poly_atoms.update(atoms)
    ctx.poly_atoms[var.get_id()] = var
    ctx.keep += list(atoms.values())
    ctx.sq_rules[var.get_id()] = p


def divide(a, b):
    """the polynomial a / b when b divides a exactly, else None"""
    if not b or len(b) > 40 or len(a) > 200:
        return None
    order = sorted({k for p in (a, b) for m in p for k, _ in m})
    key = lambda m: tuple(dict(m).get(k, 0) for k in order)
    lb = max(b, key=key)
    kb, quo, rest = dict(lb), {}, dict(a)
    for _ in range(400):
        if not rest:
            return quo
        la = max(rest, key=key)
        d = dict(la)
        for k, e in kb.items():
            d[k] = d.get(k, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        m = tuple(sorted((k, e) for k, e in d.items() if e))
        c = rest[la] / b[lb]
        quo[m] = c
        rest = add(rest, mul({m: c}, b, None), -1)
    return None


def exact_quotient(ea, eb, ctx):
    """ea / eb as a polynomial term when it is one, else None"""
    atoms = dict(getattr(ctx, "poly_atoms", {}))
    rules = rules_of(ctx)
    try:
        pa, pb = to_poly(ea, ctx, atoms), to_poly(eb, ctx, atoms)
        if not pb or len(pb) == 1 and () in pb:
            return None
        r = divide(pa, pb)
        if r is None and len(pb) == 1:
            (m, c), = pb.items()
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in rules:  # a root: a / r = (a / r^2) * r
                r = divide(pa, rules[m[0][0]])
                if r is not None:
                    r = mul({k: v / c for k, v in r.items()}, {m: Fraction(1)}, rules)
    except TooBig:
        return None
    if r is None:
        return None
    ctx.keep += list(atoms.values())
    return from_poly(r, atoms)


def square_root(e, ctx):
    """a term t with t^2 = e when e is the square of a monomial, else None"""
    atoms = dict(getattr(ctx, "poly_atoms", {}))
    try:
        p = reduce(to_poly(e, ctx, atoms), rules_of(ctx))
    except TooBig:
        return None
    if len(p) != 1:
        return None
    (m, c), = p.items()
    if not m or c <= 0 or any(k % 2 for _, k in m):
        return None
    from math import isqrt

    n, d = isqrt(c.numerator), isqrt(c.denominator)
    if n * n != c.numerator or d * d != c.denominator:
        return None
    ctx.keep += list(atoms.values())
    return from_poly({tuple((k, x // 2) for k, x in m): Fraction(n, d)}, atoms)


_CMP = {z3.Z3_OP_LE: "le", z3.Z3_OP_LT: "lt", z3.Z3_OP_GE: "ge", z3.Z3_OP_GT: "gt", z3.Z3_OP_EQ: "eq"}
_FLIP = {"le": "ge", "lt": "gt", "ge": "le", "gt": "lt", "eq": "eq"}
_MK = {"le": lambda t: t <= 0, "lt": lambda t: t < 0, "ge": lambda t: t >= 0, "gt": lambda t: t > 0, "eq": lambda t: t == 0}


def _sign(t, ctx):
    lo, hi = core.interval(t)
    l2, h2, ls, hs = ctx.learned_about(t)
    if lo is not None and lo > 0 or l2 is not None and (l2 > 0 or l2 == 0 and ls):
        return 1
    if hi is not None and hi < 0 or h2 is not None and (h2 < 0 or h2 == 0 and hs):
        return -1
    return None


def _tidy_cmp(c, op, ctx):
    a, b = c.arg(0), c.arg(1)
    if not z3.is_real(a) or not core.abstract(c)[1]:
        return c
    atoms = dict(getattr(ctx, "poly_atoms", {}))
    rules = rules_of(ctx)
    try:
        p = reduce(add(to_poly(a, ctx, atoms), to_poly(b, ctx, atoms), -1), rules)
    except TooBig:
        return c
    ctx.keep += list(atoms.values())
    if not p:
        return z3.BoolVal(op in ("le", "ge", "eq"))
    common = None
    for m in p:
        d = dict(m)
        common = d if common is None else {k: min(common.get(k, 0), d.get(k, 0)) for k in set(common) | set(d)}
    drop, sign = {}, 1
    for k, e in common.items():
        if not e:
            continue
        sg = _sign(atoms[k], ctx)
        if sg is None:
            if e < 0 and e % 2 == 0:  # an even power of a denominator, which is not zero
                drop[k] = e
            elif e < -1:
                drop[k] = e + 1
            continue
        drop[k] = e
        if sg < 0 and e % 2:
            sign = -sign
    if drop:
        p = {_mono_mul(m, tuple((k, -e) for k, e in drop.items())): v for m, v in p.items()}
        p = reduce(p, rules)
    if len(p) > 60:
        return c
    if sign < 0:
        op = _FLIP[op]
    return _MK[op](from_poly(p, atoms))


def tidy(c, ctx):
    """an equivalent condition whose polynomial comparisons are in normal form, without factors of known sign"""
    if not z3.is_app(c) or not z3.is_bool(c):
        return c
    k = c.decl().kind()
    if k in _CMP and not z3.is_bool(c.arg(0)):
        return _tidy_cmp(c, _CMP[k], ctx)
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_XOR) or k == z3.Z3_OP_ITE:
        ch = [tidy(x, ctx) for x in c.children()]
        return c.decl()(*ch) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And if k == z3.Z3_OP_AND else z3.Or)(*ch)
    return c


def atom(c, ctx):
    """a comparison of reals as (form, op, constant): form op constant, the form without constant and with leading
    coefficient one, the same for equal forms; None for anything else"""
    if not z3.is_app(c) or c.decl().kind() not in _CMP or c.num_args() != 2 or not z3.is_arith(c.arg(0)):
        return None
    op = _CMP[c.decl().kind()]
    atoms = {}
    try:
        p = add(to_poly(c.arg(0), ctx, atoms), to_poly(c.arg(1), ctx, atoms), -1)
    except TooBig:
        return None
    if len(p) > 24:
        return None
    const = -p.pop((), Fraction(0))
    if not p:
        return None
    ctx.keep += list(atoms.values())
    items = sorted(p.items())
    f = items[0][1]
    if f < 0:
        op = _FLIP[op]
    return tuple((m, v / f) for m, v in items), op, const / f

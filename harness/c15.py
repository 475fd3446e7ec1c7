"""Collision response by impulses."""
from decimal import Decimal
from math import inf

import numpy as np
from shapely.geometry import LineString, Polygon

from dg_commons.sim import SimParameters
from dg_commons.sim.collision import resolve_collision, resolve_collision_with_environment
from dg_commons.sim.collision_utils import compute_impulse_response, velocity_of_P_given_A
from dg_commons.sim.models.obstacles import ObstacleGeometry, StaticObstacle
from dg_commons.sim.simulator import SimContext
from harness.simstubs import Geo, P, Q, Recorder, StubModel, square, world
from symx.engine import H

META = {
    "id": "C15",
    "title": "Collisions conserve momentum, restitute as specified and create no energy",
    "statement": "When two overlapping bodies approach each other at the contact point, the collision changes their velocities by equal and opposite impulses along the contact normal that push them apart: linear and angular momentum are conserved, the approach speed at the contact is reversed with the smaller of the two restitution coefficients, and the total kinetic energy does not increase; a static obstacle acts as a body that cannot move. Bodies already separating are left alone and not reported. The report carries, per player, footprint, impact locations, velocities before and after and the change of translational kinetic energy, with the contact point, normal and time, and hitting the environment is the player's fault.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic velocities, spins, masses, inertias and restitution coefficients in [0, 1] (for restitution and energy, symbolic speeds with fixed masses and the reverse), over four concrete overlap geometries (face, offset face, corner, skew) and two obstacles; the impulse law additionally for arbitrary contact normals and lever arms"},
    "why_tests_cant": "the tests only watch that simulations with crashes run through; no test computes a momentum or an energy, and a wrong lever arm, sign or coefficient still bounces",
    "anchors": {"files": ["src/dg_commons/sim/collision.py", "src/dg_commons/sim/collision_utils.py"],
                "mechanism": [{"name": "impulse resolution", "where": "src/dg_commons/sim/collision.py resolve_collision, resolve_collision_with_environment"},
                              {"name": "impulse and velocity updates", "where": "src/dg_commons/sim/collision_utils.py compute_impulse_response, velocity_after_collision, rot_velocity_after_collision"}]},
}
ASSUMPTIONS = ["velocities and spins in [-10, 10], masses and inertias in [0.5, 5], restitution in [0, 1]; bodies are stand-ins with concrete convex footprints (overlap geometry is computed by shapely on concrete shapes)",
               "assertions at 1e-5 because the concrete normal is a rounded unit vector"]
SHAPES = {  # contact normals with short decimal coordinates
    "face": (square(0, 0, 1), Polygon([(0.75, -2), (3, -2), (3, 2), (0.75, 2)]), (0.0, 0.0), (2.0, 0.5)),
    "offset": (square(0, 0, 1), Polygon([(0.25, -3), (3, -3), (3, 0), (0.25, 0)]), (-0.25, 0.125), (1.75, -1.5)),
    "corner": (square(0, 0, 1), Polygon([(0.8, 0.8), (2.8, 1.8), (1.8, 2.8)]), (0.0, 0.0), (1.75, 1.75)),
    "skew": (Polygon([(-2, -1), (2, -1), (2, 1), (-2, 1)]), Polygon([(1, 0.25), (5, -0.75), (2, 3.25)]), (0.25, -0.125), (2.5, 1.0)),
}


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def _body(ctx, k, shape, cog, m=None, e=None):
    geo = Geo(m=ctx.real("m" + k, 0.5, 5) if m is None else m, Iz=ctx.real("Iz" + k, 0.5, 5) if m is None else m, e=ctx.real("e" + k, 0, 1) if e is None else e, color="red")
    v, w = ctx.reals("v" + k, 2, -10, 10), ctx.real("w" + k, -10, 10)
    return StubModel(k, [shape], geometry=geo, vel=v, omega=w, cog=cog), geo, v, w


def _scene(a, b):
    return SimContext(dg_scenario=world(), models={P: a, Q: b}, players={P: Recorder(), Q: Recorder()}, param=SimParameters(), time=Decimal("1.5"))


def _at(v, w, r):
    return [v[0] - w * r[1], v[1] + w * r[0]]


def _contact(rep, ca, cb):
    p = [float(x) for x in rep.impact_point.coords[0]]
    return p, [float(x) for x in rep.impact_normal], [p[0] - ca[0], p[1] - ca[1]], [p[0] - cb[0], p[1] - cb[1]]


def _geometry(shapes, swap=False):
    """contact point and normal from the same geometry with bodies closing head on (concrete)"""
    sa, sb, ca, cb = SHAPES[shapes]
    from dg_commons.sim.collision_utils import compute_impact_geometry

    n, p = compute_impact_geometry(sa, sb)
    return [float(x) for x in n], [float(x) for x in p.coords[0]]


def pair(ctx, shapes, order=False):
    sa, sb, ca, cb = SHAPES[shapes]
    A, ga, va, wa = _body(ctx, "a", sa, ca)
    B, gb, vb, wb = _body(ctx, "b", sb, cb)
    sc = _scene(A, B)
    rep = resolve_collision(Q, P, sc) if order else resolve_collision(P, Q, sc)
    n, p = _geometry(shapes)
    ra, rb = [p[0] - ca[0], p[1] - ca[1]], [p[0] - cb[0], p[1] - cb[1]]
    ua, ub = _at(va, wa, ra), _at(vb, wb, rb)
    closing = dot([ua[0] - ub[0], ua[1] - ub[1]], n)
    if rep is None:
        ctx.le(closing, 0.0, "only separating bodies are left alone", tol=1e-5)
        for m, v, w in ((A, va, wa), (B, vb, wb)):
            ctx.seq_eq([*m.v, m.w], [*v, w], "velocities untouched")
            ctx.true(not m.has_collided, "not marked as collided")
        return
    ctx.ge(closing, 0.0, "separating bodies are not resolved", tol=1e-5)
    ctx.true(A.has_collided and B.has_collided, "both marked as collided")
    a1, b1 = [A.v[0], A.v[1]], [B.v[0], B.v[1]]
    for i, k in enumerate("xy"):
        ctx.eq(ga.m * a1[i] + gb.m * b1[i], ga.m * va[i] + gb.m * vb[i], f"momentum {k}", tol=1e-5)
    L = lambda g, c, v, w: g.Iz * w + g.m * cross(c, v)
    ctx.eq(L(ga, ca, a1, A.w) + L(gb, cb, b1, B.w), L(ga, ca, va, wa) + L(gb, cb, vb, wb), "angular momentum", tol=1e-4)
    da = [a1[0] - va[0], a1[1] - va[1]]
    ctx.eq(cross(da, n), 0.0, "impulse along the normal", tol=1e-5)
    ctx.le(dot(da, n), 0.0, "first body pushed back", tol=1e-5)
    ctx.eq(ga.Iz * (A.w - wa), ga.m * cross(ra, da), "the impulse acts at the contact point", tol=1e-4)
    _report(ctx, rep, {P: (A, ga, va, wa, sa), Q: (B, gb, vb, wb, sb)}, p, n if not order else [-n[0], -n[1]], sc.time)


def restitution(ctx, shapes, what):
    """the approach speed at the contact is reversed with the smaller coefficient"""
    sa, sb, ca, cb = SHAPES[shapes]
    n, p = _geometry(shapes)
    ra, rb = [p[0] - ca[0], p[1] - ca[1]], [p[0] - cb[0], p[1] - cb[1]]
    bodies = []
    for k, shape, cog, s in (("a", sa, ca, 1), ("b", sb, cb, -1)):
        if what == "speeds":
            m, iz = (2.0, 0.5) if k == "a" else (0.5, 4.0)
            v, w = ctx.reals("v" + k, 2, -10, 10), ctx.real("w" + k, -10, 10)
        elif what == "speeds+":
            m, iz = ctx.choice("m" + k, [0.5, 2.0, 4.0]), ctx.choice("iz" + k, [0.5, 4.0])
            v, w = ctx.reals("v" + k, 2, -10, 10), ctx.real("w" + k, -10, 10)
        else:
            m, iz = (ctx.real("m" + k, 0.5, 5) if "m" in what else 2.0), (ctx.real("iz" + k, 0.5, 5) if k in what else 4.0)
            v, w = [s * 2.0 * n[0] + 1.0, s * 2.0 * n[1] - 0.5], 0.25 * s
        g = Geo(m=m, Iz=iz, e=ctx.real("e" + k, 0, 1), color="red")
        bodies.append((StubModel(k, [shape], geometry=g, vel=v, omega=w, cog=cog), g, v, w))
    (A, ga, va, wa), (B, gb, vb, wb) = bodies
    ua, ub = _at(va, wa, ra), _at(vb, wb, rb)
    closing = dot([ua[0] - ub[0], ua[1] - ub[1]], n)
    ctx.assume(closing >= 0.001)
    ctx.assume(resolve_collision(P, Q, _scene(A, B)) is not None)
    a1, b1 = [A.v[0], A.v[1]], [B.v[0], B.v[1]]
    xa, xb = _at(a1, A.w, ra), _at(b1, B.w, rb)
    after = dot([xa[0] - xb[0], xa[1] - xb[1]], n)
    ea, eb = ga.e, gb.e
    ctx.eq(after, -ctx.ite(ea <= eb, ea, eb) * closing, "restitution", tol=1e-4)


def _report(ctx, rep, bodies, p, n, time):
    ctx.true(set(rep.players) == set(bodies), "players of the report")
    ctx.eq(rep.at_time, time, "time of the report")
    ctx.seq_eq([*rep.impact_point.coords[0]], p, "contact point of the report")
    ctx.seq_eq([*rep.impact_normal], n, "normal of the report")
    for k, (m, g, v, w, shape) in bodies.items():
        r = rep.players[k]
        ctx.seq_eq([*r.velocity[0], r.velocity[1]], [*v, w], f"{k}: velocity before")
        ctx.seq_eq([*r.velocity_after[0], r.velocity_after[1]], [*m.v, m.w], f"{k}: velocity after")
        ctx.eq(r.energy_delta, 0.5 * g.m * (m.v[0] * m.v[0] + m.v[1] * m.v[1] - v[0] * v[0] - v[1] * v[1]), f"{k}: energy change", tol=1e-4)
        ctx.true(r.footprint.equals(shape), f"{k}: footprint")
        ctx.true([l for l, _ in r.locations] == ["everywhere"], f"{k}: location")


def energy(ctx, shapes):
    sa, sb, ca, cb = SHAPES[shapes]
    A, ga, va, wa = _body(ctx, "a", sa, ca, m=2.0, e=ctx.real("ea", 0, 1))
    B, gb, vb, wb = _body(ctx, "b", sb, cb, m=3.0, e=1.0)
    ctx.assume(resolve_collision(P, Q, _scene(A, B)) is not None)
    K = lambda g, v, w: g.m * dot(v, v) + g.Iz * w * w
    ctx.le(K(ga, [A.v[0], A.v[1]], A.w) + K(gb, [B.v[0], B.v[1]], B.w), K(ga, va, wa) + K(gb, vb, wb), "kinetic energy does not increase", tol=1e-4)


def energy_any(ctx):
    """arbitrary contact normal and lever arms: the work of the computed impulse is never positive"""
    th = ctx.angle("normal")
    from harness.util import cos, sin

    n = np.array([cos(th), sin(th)])
    ra, rb, v = ctx.reals("ra", 2, -3, 3), ctx.reals("rb", 2, -3, 3), ctx.reals("v", 2, -10, 10)
    ga, gb = (Geo(m=ctx.real("m" + k, 0.5, 5), Iz=ctx.real("Iz" + k, 0.5, 5), e=ctx.real("e" + k, 0, 1), color="red") for k in "ab")
    ctx.assume(dot(v, n) >= 0)
    j = compute_impulse_response(n, np.array(v), np.array(ra), np.array(rb), ga, gb)
    ctx.le(j, 0.0, "impulse pushes the first body back")
    K = 1 / ga.m + 1 / gb.m + cross(ra, n) * cross(ra, n) / ga.Iz + cross(rb, n) * cross(rb, n) / gb.Iz
    e = ctx.ite(ga.e <= gb.e, ga.e, gb.e)
    ctx.eq(j * K, -(1 + e) * dot(v, n), "impulse law", tol=1e-5)


def point_velocity(ctx):
    v, w, r = ctx.reals("v", 2, -10, 10), ctx.real("w", -10, 10), ctx.reals("r", 2, -10, 10)
    u = velocity_of_P_given_A(np.array(v), w, np.array(r))
    ctx.seq_eq([*u], _at(v, w, r), "velocity of a point of a rigid body")


def environment(ctx, kind):
    sa = square(0, 0, 1)
    ca = (0.1, -0.2)
    shape = {"wall": LineString([(0.8, -3), (0.8, 3)]), "box": Polygon([(0.7, -0.5), (3, -0.5), (3, 2), (0.7, 2)])}[kind]
    A, ga, va, wa = _body(ctx, "a", sa, ca)
    eb = ctx.real("eb", 0, 1)
    ob = StaticObstacle(shape, ObstacleGeometry(m=inf, Iz=inf, e=eb, color="green"))
    time = Decimal("2.5")
    rep = resolve_collision_with_environment(P, A, ob, time)
    from dg_commons.sim.collision_utils import compute_impact_geometry

    n, p = compute_impact_geometry(sa, shape)
    n, p = [float(x) for x in n], [float(x) for x in p.coords[0]]
    ra = [p[0] - ca[0], p[1] - ca[1]]
    closing = dot(_at(va, wa, ra), n)
    if rep is None:
        ctx.le(closing, 0.0, "only a separating body is left alone", tol=1e-5)
        ctx.seq_eq([*A.v, A.w], [*va, wa], "velocity untouched")
        ctx.true(not A.has_collided, "not marked as collided")
        return
    ctx.ge(closing, 0.0, "a separating body is not resolved", tol=1e-5)
    ctx.true(A.has_collided, "marked as collided")
    da = [A.v[0] - va[0], A.v[1] - va[1]]
    ctx.eq(cross(da, n), 0.0, "impulse along the normal", tol=1e-5)
    ctx.eq(ga.Iz * (A.w - wa), ga.m * cross(ra, da), "the impulse acts at the contact point", tol=1e-4)
    after = dot(_at([A.v[0], A.v[1]], A.w, ra), n)
    ctx.eq(after, -ctx.ite(ga.e <= eb, ga.e, eb) * closing, "restitution", tol=1e-4)
    ctx.true(rep.players[P].at_fault, "the player is at fault")
    other = [k for k in rep.players if k != P]
    ctx.true(len(other) == 1 and not rep.players[other[0]].at_fault, "the environment is not at fault")
    env = rep.players[other[0]]
    ctx.seq_eq([*env.velocity[0], env.velocity[1], *env.velocity_after[0], env.velocity_after[1], env.energy_delta], [0.0] * 7, "the environment does not move")
    rep2 = type(rep)(players={P: rep.players[P]}, impact_point=rep.impact_point, impact_normal=rep.impact_normal, at_time=rep.at_time)
    _report(ctx, rep2, {P: (A, ga, va, wa, sa)}, p, n, time)


HARNESSES = [H(pair, name=f"pair_{k}", shapes=k, budget=40, timeout_ms=8000) for k in SHAPES] + [H(pair, name="pair_face_swapped", shapes="face", order=True, budget=40), H(pair, name="pair_skew_swapped", shapes="skew", order=True, budget=40)] + [
    H(energy, name=f"energy_{k}", shapes=k, budget=40) for k in SHAPES] + [H(energy_any, budget=40), H(point_velocity), *[H(restitution, name=f"restitution_{k}_{w}", shapes=k, what=w, budget=40) for k in SHAPES for w in ("speeds", "m", "a", "b")], *[H(restitution, name=f"restitution_{k}_deep", shapes=k, what="speeds+", tier="thorough", budget=120) for k in SHAPES], H(environment, name="environment_wall", kind="wall", budget=40), H(environment, name="environment_box", kind="box", budget=40)]

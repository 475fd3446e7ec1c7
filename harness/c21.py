"""The speed behaviour of lane following agents: yielding, emergency and distance keeping."""
import math

from dg_commons.controllers.speed import SpeedBehavior
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.simulator_structures import PlayerObservations
from harness.util import cos, sin
from symx.engine import H

META = {
    "id": "C21",
    "title": "The speed reference yields, brakes and keeps distance by the rules stated",
    "statement": "The speed reference is zero exactly when someone moving faster than the minimum crosses from the right (yield) or from the left (emergency) within the yield distance, or someone oncoming ahead is closer than both cover in the safety time (emergency); the emergency flag is raised exactly in the emergency cases. Otherwise it is the nominal speed, lowered for any vehicle ahead in the same direction that is closer than the safety distance to its speed less the closing speed, never below zero. The decision depends only on relative poses and speeds, and another agent never raises it.",
    "quantifier": {"over": ["inputs"], "text": "all own poses and speeds, one or two other agents with every relative position, heading and speed, every setting of nominal speed, yield distance, minimum speed and safety time (symbolic)"},
    "why_tests_cant": "the tests run one scene with lane followers and look at no speed reference; the rules depend on thresholds over continuous relative positions",
    "anchors": {"files": ["src/dg_commons/controllers/speed.py"],
                "mechanism": [{"name": "yield and emergency", "where": "src/dg_commons/controllers/speed.py is_there_anyone_to_yield_to, is_emergency_subroutine_needed"},
                              {"name": "distance keeping", "where": "src/dg_commons/controllers/speed.py cruise_control"},
                              {"name": "decision", "where": "src/dg_commons/controllers/speed.py get_speed_ref"}]},
}
ASSUMPTIONS = ["relative headings, distances and speeds keep a margin of 1e-4 from the thresholds (rounding)", "distances in [0.25, 40] m, bearings and headings within (-3.1, 3.1) rad, speeds in [-5, 30]"]


def _setup(ctx, sym):
    b = SpeedBehavior("me")
    p = b.params
    if sym:
        p.nominal_speed, p.yield_distance = ctx.real("nominal", 2, 30), ctx.real("yield_distance", 1, 15)
        p.minimum_yield_vel, p.safety_time_braking = ctx.real("min_vel", 0.25, 4), ctx.real("safety_time", 0.5, 3)
    return b, p


def _off(ctx, *vs):
    """away from the thresholds"""
    ctx.assume(ctx.and_(*[ctx.or_(v > 1e-4, v < -1e-4) for v in vs]))


def _other(ctx, i, me, heading=None):
    """an agent at (distance, bearing, heading) relative to me"""
    d, b = ctx.real(f"dist{i}", 0.25, 40), ctx.angle(f"bearing{i}", -3.1, 3.1)
    h = ctx.angle(f"heading{i}", -3.1, 3.1) if heading is None else heading
    v = ctx.real(f"v{i}", -5, 30)
    x, y, th = me
    cb, sb, c, s = cos(b), sin(b), cos(th), sin(th)
    st = VehicleState(x=x + d * (c * cb - s * sb), y=y + d * (s * cb + c * sb), psi=th + h, vx=v, delta=0)
    return st, (d, d * cb, d * sb, h, v)


def _rules(ctx, p, my, o):
    """(yield, emergency, speed limit or None) of one other agent"""
    d, ahead, left, h, v = o
    q = math.pi / 4
    _off(ctx, h - q, h - 3 * q, h + q, h + 3 * q, h - math.pi / 6, h + math.pi / 6, v - p.minimum_yield_vel, d - p.yield_distance, ahead, ahead - 0.5, left - 1.2, left + 1.2,
         d - p.safety_time_braking * (my + v))
    right = ctx.and_(h > q, h < 3 * q, v > p.minimum_yield_vel, d < p.yield_distance)
    lft = ctx.and_(h < -q, h > -3 * q, v > p.minimum_yield_vel, d < p.yield_distance)
    front = ctx.and_(ctx.or_(h > 3 * q, h < -3 * q), ahead > 0, left <= 1.2, left >= -1.2, d < p.safety_time_braking * (my + v))
    closing = ctx.ite(my > v, my - v, 0)
    keep = p.safety_time_braking * my + closing
    _off(ctx, d - keep)
    follow = ctx.and_(h < math.pi / 6, h > -math.pi / 6, ahead > 0.5, left <= 1.2, left >= -1.2, d < keep)
    cap = v - closing
    cap = ctx.ite(cap < 0, 0, ctx.ite(cap > 130 / 3.6, 130 / 3.6, cap))
    return right, ctx.or_(lft, front), ctx.ite(ctx.and_(follow, cap < p.nominal_speed), cap, p.nominal_speed)


def rules(ctx, n, sym, pose, headings=None):
    b, p = _setup(ctx, sym)
    me = (ctx.real("x", -20, 20), ctx.real("y", -20, 20), ctx.angle("psi", -3.1, 3.1)) if pose == "any" else pose
    my = ctx.real("my_v", -5, 30)
    agents = {"me": PlayerObservations(VehicleState(x=me[0], y=me[1], psi=me[2], vx=my, delta=0), None)}
    others = []
    for i in range(n):
        st, o = _other(ctx, i, me, None if headings is None else headings[i])
        agents[f"other{i}"] = PlayerObservations(st, None)
        others.append(o)
    b.update_observations(agents)
    ref, emergency = b.get_speed_ref(0.0)
    rs = [_rules(ctx, p, my, o) for o in others]
    em = ctx.or_(*[r[1] for r in rs])
    stop = ctx.or_(em, *[r[0] for r in rs])
    want = p.nominal_speed
    for r in rs:
        want = ctx.ite(r[2] < want, r[2], want)
    ctx.true(ctx.cond(em) if emergency else ctx.not_(em), "emergency exactly in the emergency cases")
    ctx.eq(ref, ctx.ite(stop, 0, want), "speed reference")
    ctx.ge(ref, 0, "never negative")
    ctx.le(ref, p.nominal_speed, "never above nominal")


def alone(ctx):
    b, p = _setup(ctx, True)
    b.update_observations({"me": PlayerObservations(VehicleState(x=ctx.real("x", -20, 20), y=0.0, psi=ctx.angle("psi", -3.1, 3.1), vx=ctx.real("v", -5, 30), delta=0), None)})
    ref, em = b.get_speed_ref(0.0)
    ctx.eq(ref, p.nominal_speed, "nominal speed when alone")
    ctx.true(not em, "no emergency when alone")


def recovers(ctx):
    """the decision has no memory: after yielding the nominal speed returns"""
    b, p = _setup(ctx, True)
    mine = PlayerObservations(VehicleState(x=0.0, y=0.0, psi=0.0, vx=1.0, delta=0), None)
    v = ctx.real("v", 5, 20)
    near = PlayerObservations(VehicleState(x=0.5, y=-0.25, psi=ctx.real("heading", 0.8, 2.3), vx=v, delta=0), None)
    b.update_observations({"me": mine, "other": near})
    ctx.eq(b.get_speed_ref(0.0)[0], 0, "yields")
    b.update_observations({"me": mine})
    ctx.eq(b.get_speed_ref(1.0)[0], p.nominal_speed, "nominal again")


ORIGIN = (0.0, 0.0, 0.0)
HARNESSES = [H(alone, budget=15), H(recovers, budget=15)]
HARNESSES += [H(rules, name="one:any pose", n=1, sym=False, pose="any", budget=100, thorough_budget=400), H(rules, name="one:any setting", n=1, sym=True, pose=ORIGIN, budget=60)]
HARNESSES += [H(rules, name=f"two:{a:.2f},{c:.2f}", n=2, sym=False, pose=ORIGIN, headings=(a, c), budget=60, thorough_budget=300) for a, c in ((0.1, -0.2), (0.2, 1.5), (0.0, -1.4), (3.1, 0.3), (1.2, -1.2))]
HARNESSES += [H(rules, name="two:any heading", n=2, sym=False, pose=ORIGIN, tier="thorough", thorough_budget=500)]

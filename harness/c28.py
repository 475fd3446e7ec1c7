"""Who is at fault in a collision between players, and from where a player is hit."""
from contextlib import contextmanager
from types import SimpleNamespace

import numpy as np
from commonroad.scenario.scenario import Scenario
from shapely.geometry import Point

from dg_commons import PlayerName
from dg_commons.maps.lanes import _EXTRAPOLATION_STEP, DgLanelet
from dg_commons.sim.collision import resolve_collision
from dg_commons.sim.collision_utils import check_who_is_at_fault, get_impact_point_direction
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.scenarios import DgScenario
from harness.c27 import Lanelet, Network, _town
from harness.simstubs import P, Q, R, StubModel, square
from harness.util import cos, sin
from symx.engine import H

META = {
    "id": "C28",
    "title": "Fault goes to exactly the players who were nowhere in a legal lane pose",
    "statement": "In a collision between players on a road network, a player is at fault exactly when, for every lane under the point of impact, it is outside that lane or heads against it; where there is no lane all are at fault, and without a road network nobody is. The judgement of one player depends on its own pose only, and the collision report gives each player its own verdict. The direction from which a player is hit is the direction of the point of impact relative to its heading.",
    "quantifier": {"over": ["inputs"], "text": "all positions and headings of up to 3 players and all impact points on networks of up to 4 axis-parallel lanes (one lane, opposite lanes, a crossing, a fork); all impact points and poses for the direction"},
    "why_tests_cant": "the only test of the fault rule uses one recorded collision on one map",
    "anchors": {"files": ["src/dg_commons/sim/collision_utils.py", "src/dg_commons/sim/collision.py"],
                "mechanism": [{"name": "fault rule", "where": "src/dg_commons/sim/collision_utils.py check_who_is_at_fault, _is_illegal_lanepose"},
                              {"name": "verdicts in the report", "where": "src/dg_commons/sim/collision.py resolve_collision"},
                              {"name": "impact direction", "where": "src/dg_commons/sim/collision_utils.py get_impact_point_direction"}]},
}
ASSUMPTIONS = ["the lanelet network is replaced by a stand-in with the documented look up by position; lanes are straight and 4 m wide",
               "the search for the nearest point of a lane is replaced by its specification for straight lanes, which C19 checks; concrete replays use the real one",
               "poses within 0.125 m of a lane boundary or of a lane's ends, and headings within 0.01 rad of the perpendicular, are left out (the minimiser's tolerance)"]


def closest(ctx):
    """what C19 checks of the search along a lane: the point of a straight lane nearest to a position"""

    def run(self, p, tol=None, bracket=None):
        a, b = self.control_points[0].q, self.control_points[-1].q
        L = float(np.linalg.norm(b.p - a.p))
        d = [round(float(k) / L) for k in b.p - a.p]  # axis-parallel
        x = (p[0] - float(a.p[0])) * d[0] + (p[1] - float(a.p[1])) * d[1]
        n = len(self.control_points) - 1  # evenly spaced
        if ctx.cond(x < 0):
            beta = x / _EXTRAPOLATION_STEP
        elif ctx.cond(x > L):
            beta = n + (x - L) / _EXTRAPOLATION_STEP
        else:
            beta = n * x / L
        return beta, self.center_point(beta)

    return patched(DgLanelet, "find_along_lane_closest_point", run)


@contextmanager
def patched(cls, name, fn):
    old = cls.__dict__[name]
    setattr(cls, name, fn)
    try:
        yield
    finally:
        setattr(cls, name, old)


def _frame(l, p):
    """progress and offset from the centre line"""
    a, b = p[0] - l.o[0], p[1] - l.o[1]
    return a * l.d[0] + b * l.d[1], -a * l.d[1] + b * l.d[0]


def _pose(x, y, th):
    c, s = cos(th), sin(th)
    return np.array([[c, -s, x], [s, c, y], [0.0, 0.0, 1.0]])


def _towns(name):
    return _town("row", (1, 2, 3))[:1] if name == "one" else _town(name, (1, 2, 3, 4))


def _legal(ctx, l, x, y, th, m=0.125):
    """(legal, decidable)"""
    al, lat = _frame(l, (x, y))
    al, lat = al, abs(lat)
    fwd = l.d[0] * cos(th) + l.d[1] * sin(th)
    away = lambda v, at, e: ctx.or_(v > at + e, v < at - e)
    for k in (-1.5, -0.5, 0.5, 1.5):  # perpendicular to some lane
        at = k * np.pi if l.d[1] == 0 else (k - 0.5) * np.pi
        ctx.assume(away(th, at, 0.01))
    ctx.assume(ctx.and_(away(al, 0, m), away(al, l.length, m), away(lat, 2.0, m), away(fwd, 0, 0.01)))
    return ctx.cond(ctx.and_(al > 0, al < l.length, lat < 2.0, fwd > 0))


def _under(ctx, ls, p, m=0.0625):
    out = []
    for l in ls:
        al, lat = _frame(l, p)
        out.append(l.contains(ctx, p))
    return [l for l, o in zip(ls, out) if o]


def fault(ctx, town, names, box, sectors=None, at=None):
    ls = _towns(town)
    net = Network(ctx, ls)
    i = at or box
    p = [ctx.real("px", i[0], i[2]), ctx.real("py", i[1], i[3])]
    poses, raw = {}, {}
    for k, n in enumerate(names):
        x, y = ctx.real(f"x{k}", box[0], box[2]), ctx.real(f"y{k}", box[1], box[3])
        th = ctx.angle(f"psi{k}", *((-3.1, 3.1) if sectors is None else sectors[k]))
        raw[n], poses[n] = (x, y, th), _pose(x, y, th)
    here = _under(ctx, ls, p)
    want = {n: not any([_legal(ctx, l, *raw[n]) for l in here]) for n in names}
    point = SimpleNamespace(x=p[0], y=p[1]) if ctx.symbolic else Point(*p)
    if ctx.symbolic:
        with closest(ctx):
            got = check_who_is_at_fault(poses, point, net)
    else:
        got = check_who_is_at_fault(poses, point, net)
    ctx.true(set(got) == set(names), "a verdict for each player")
    for n in names:
        ctx.true(bool(got[n]) == want[n], "at fault iff in no lane legally")


class World(Scenario):
    def __init__(self, net):
        self._net = net

    lanelet_network = property(lambda self: self._net)


def report(ctx, roads, order):
    """two squares overlapping at a fixed place, in a symbolic road network"""
    net = None
    if roads:
        net = Network(ctx, [Lanelet(1, -5, 0, 0, 10)])
    hx, hy = ctx.angle("psi_p", -3.1, 3.1), ctx.angle("psi_q", -3.1, 3.1)

    class Posed(StubModel):
        def get_pose(self):
            x, y = self.cog
            return _pose(x, y, self.psi)

        def get_velocity(self, in_model_frame):
            return np.array([self.v[0], self.v[1]]), self.w

        def set_velocity(self, vel, omega, in_model_frame):
            self.v, self.w = np.array([vel[0], vel[1]]), omega

    a, b = Posed("P", [square(0, 0, 1)], vel=(3.0, 0.0), cog=(0.0, 0.0)), Posed("Q", [square(1.5, 0.5, 1)], vel=(-1.0, 0.0), cog=(1.5, 0.5))
    a.psi, b.psi = hx, hy
    sc = DgScenario() if net is None else DgScenario(World(net))
    c = SimpleNamespace(dg_scenario=sc, models={P: a, Q: b}, time=1.5)
    run = lambda: resolve_collision(*order, c)
    if ctx.symbolic and roads:
        for h in (hx, hy):
            ctx.assume(ctx.or_(cos(h) > 0.01, cos(h) < -0.01))
            ctx.assume(ctx.and_(*[ctx.or_(h > k + 0.01, h < k - 0.01) for k in (-np.pi / 2, np.pi / 2)]))
        with closest(ctx):
            r = run()
    else:
        r = run()
    ctx.true(r is not None and set(r.players) == {P, Q}, "a report on both")
    for n, h in ((P, hx), (Q, hy)):
        ctx.true(bool(r.players[n].at_fault) == (False if not roads else ctx.cond(cos(h) < 0)), "each player's own verdict")


def direction(ctx, turns):
    x, y, th = ctx.real("x", -10, 10), ctx.real("y", -10, 10), ctx.angle("psi", -3.1, 3.1)
    d, b = ctx.real("distance", 0.125, 8), ctx.angle("bearing", -3.1, 3.1)
    # the point seen from the body under the bearing
    a = (cos(th) * cos(b) - sin(th) * sin(b), sin(th) * cos(b) + cos(th) * sin(b))
    px, py = x + d * a[0], y + d * a[1]
    got = get_impact_point_direction(VehicleState(x=x, y=y, psi=th + 2 * turns * np.pi, vx=3.0, delta=0.25), SimpleNamespace(x=px, y=py) if ctx.symbolic else Point(px, py))
    ctx.eq(cos(got), cos(b), "bearing (cos)", 1e-5)
    ctx.eq(sin(got), sin(b), "bearing (sin)", 1e-5)


BOX = {"one": (-3, -4, 13, 4), "crossing": (-7, -7, 7, 7), "both": (-7, -7, 7, 7), "fork": (-3, -4, 32, 10), "two": (-3, -4, 22, 12)}
HARNESSES = [H(fault, name=f"fault:{t},1", town=t, names=(P,), box=BOX[t], budget=100) for t in ("one", "fork", "two")]
A, B, C, D = (0.1, 1.4), (1.7, 3.0), (-1.4, -0.1), (-3.0, -1.7)
HARNESSES += [H(fault, name=f"fault:{t},1,{k}", town=t, names=(P,), box=BOX[t], budget=150, sectors=[s]) for t in ("crossing", "both") for k, s in enumerate((A, B, C, D))]
MID = (-1.75, -1.75, 1.75, 1.75)  # where all roads meet
MANY = [("one", (P, Q), (A, B), None), ("one", (P, Q), (C, D), None), ("one", (Q, R, P), (A, B, C), (1, -1, 9, 1)), ("both", (Q, P), (A, B), MID), ("both", (P, Q), (D, B), MID), ("crossing", (P, Q), (A, D), MID), ("both", (P, Q), (C, C), None), ("crossing", (R, P, Q), (A, C, D), MID)]
HARNESSES += [H(fault, name=f"fault:{t},{'+'.join(n)},{k}", town=t, names=n, box=(BOX[t] if k < 2 or k >= 6 else (0.5, -4, 9.5, 4) if t == "one" else (-4, -4, 4, 4)), budget=150, thorough_budget=1500, sectors=s, at=at, tier="thorough" if k >= 5 else "quick") for k, (t, n, s, at) in enumerate(MANY)]
HARNESSES += [H(report, name=f"report:{'road' if r else 'no road'},{''.join(o)}", roads=r, order=o, budget=30) for r in (True, False) for o in ((P, Q), (Q, P))]
HARNESSES += [H(direction, name=f"direction:{t}", turns=t, budget=20) for t in (0, 1, -1)]

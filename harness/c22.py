"""Sensors and observation filters."""
import math
from dataclasses import dataclass
from decimal import Decimal

import numpy as np
from commonroad_dc import pycrcc
from shapely.geometry import Point, Polygon

import dg_commons.geo
from dg_commons import SE2Transform, fd
from dg_commons.perception.sensor import FullRangeSensor, Sensor, VisRangeSensor
from dg_commons.sim import SimObservations
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.models.vehicle import VehicleState
from dg_commons.sim.scenarios import DgScenario
from dg_commons.sim.sim_perception import DelayedObsFilter, FovObsFilter, GhostObsFilter, IdObsFilter, ObsFilter
from dg_commons.sim.simulator_structures import PlayerObservations
from harness.simstubs import square
from harness.util import cos, same_angle, sin
from symx.engine import H
from symx.shims import replaced
from symx.symgeo import symgeo

META = {
    "id": "C22",
    "title": "Agents observe exactly what their sensor filters let through",
    "statement": "A field of view filter points its sensor at the observer's pose, offers it all static obstacles of the current scenario and all other players as obstacles, and passes on the observer plus exactly the players the visible region meets, unaltered and with the time kept. A delay filter delivers each player the latest of its observations of the episode that is at least the latency old, a ghost filter hides the named player from everyone else exactly beyond its distance, and the identity filter passes everything. The ray casting sensor's region follows, ray by ray across its field of view around its heading, the closest hit or the range limit.",
    "quantifier": {"over": ["inputs", "histories"], "text": "all visibility outcomes of up to 3 players, all observer poses, all positions and ghost distances; all observation times and latencies in histories of up to 5 observations; all sensor poses and hit distances (up to 2 hits on a ray), for fields of view of 3 to 5 rays"},
    "why_tests_cant": "the tests plot a few sensed regions and run scenarios with filters without checking which observations reach an agent at which time",
    "anchors": {"files": ["src/dg_commons/sim/sim_perception.py", "src/dg_commons/perception/sensor.py"],
                "mechanism": [{"name": "filters", "where": "src/dg_commons/sim/sim_perception.py FovObsFilter, DelayedObsFilter, GhostObsFilter, IdObsFilter"},
                              {"name": "ray casting", "where": "src/dg_commons/perception/sensor.py VisRangeSensor.fov_as_polygon"}]},
}
ASSUMPTIONS = ["field of view filter: the sensed region is a stand-in answering any combination of visible players; the conversion of shapes for the collision checker is replaced by the identity (the installed checker cannot convert polygons)", "sensor: the collision checker's ray tracing is replaced by symbolic hits along the ray at 0.25 m to 1 m beyond the range; shapely's polygon constructor keeps its vertices",
               "hit distances keep 1e-3 m from the range and from each other"]


class Region:
    is_valid = True

    def __init__(self, seen, fail=None):
        self.seen, self.fail, self.asked = seen, fail, []

    def intersects(self, occ):
        self.asked.append(occ)
        if self.fail is not None and occ is self.fail:
            self.fail = None
            raise RuntimeError("topology")
        return self.seen[tuple(np.round(np.array(occ.exterior.coords[0]), 3))]


@dataclass
class StubSensor(Sensor):
    region: Region = None

    def fov_as_polygon(self, obstacles):
        self.got = list(obstacles)
        self.pose_used = self.pose
        return self.region


def _key(poly):
    return tuple(np.round(np.array(poly.exterior.coords[0]), 3))


def _player(ctx, i, x=None, y=None):
    st = VehicleState(x=ctx.real(f"x{i}", -50, 50) if x is None else x, y=ctx.real(f"y{i}", -50, 50) if y is None else y, psi=ctx.angle(f"psi{i}", -3.1, 3.1), vx=ctx.real(f"v{i}", 0, 9), delta=0)
    return PlayerObservations(st, square(10.0 * i, 0.0))


def fov(ctx, n, fail):
    names = [f"p{i}" for i in range(n)]
    obs = SimObservations(players=fd({k: _player(ctx, i) for i, k in enumerate(names)}), time=Decimal(3))
    pov = ctx.choice("pov", names)
    vis = {k: ctx.boolean("sees_" + k) for k in names}
    seen = {_key(obs.players[k].occupancy): vis[k] for k in names}
    victim = next((obs.players[k].occupancy for k in names if k != pov), None) if fail else None
    s = StubSensor(region=Region(seen, victim))
    f = FovObsFilter(s)
    sc = DgScenario(static_obstacles=[StaticObstacle(square(0, 20.0)), StaticObstacle(square(5.0, 20.0))])
    with replaced(dg_commons.geo.shapely2crPolygons, lambda shape: [shape]):
        _fov(ctx, f, s, sc, obs, pov, names, vis, seen)


def _fov(ctx, f, s, sc, obs, pov, names, vis, seen):
    out = f.sense(sc, obs, pov)
    want = {k for k in names if k == pov or vis[k]}
    ctx.true(set(out.players) == want, "the observer and exactly the players seen")
    for k in want:
        ctx.true(out.players[k].state is obs.players[k].state, "observations unaltered")
        ctx.true(_key(out.players[k].occupancy) == _key(obs.players[k].occupancy), "occupancy unaltered")
    ctx.eq(out.time, Decimal(3), "time kept")
    me = obs.players[pov].state
    ctx.seq_eq([s.pose_used.p[0], s.pose_used.p[1]], [me.x, me.y], "sensor at the observer")
    same_angle(ctx, s.pose_used.theta, me.psi, "sensor along the observer's heading")
    ctx.true(len(s.got) == 2 + len(names) - 1, "static obstacles and the other players can hide")
    exp = [o.shape for o in sc.static_obstacles] + [obs.players[k].occupancy for k in names if k != pov]
    ctx.true(sorted(map(_key, s.got)) == sorted(map(_key, exp)), "every obstacle offered once")
    # used on another scenario: only its obstacles count
    s.region = Region(seen)
    f.sense(DgScenario(static_obstacles=[StaticObstacle(square(0, -20.0))]), obs, pov)
    ctx.true(len(s.got) == len(names), "obstacles of the current scenario")
    f.sense(DgScenario(), obs, pov)
    ctx.true(len(s.got) == len(names) - 1, "no static obstacles in an empty scenario")


def ghost(ctx, inner_keeps):
    d, b = ctx.real("dist", 0.125, 60), ctx.angle("bearing", -3.1, 3.1)
    x, y = ctx.real("x", -40, 40), ctx.real("y", -40, 40)
    lim = ctx.real("further_than", 0, 50)
    ctx.assume(ctx.or_(d - lim >= 1e-6, d - lim <= -1e-6))
    obs = SimObservations(players=fd({"a": _player(ctx, 0, x, y), "g": _player(ctx, 1, x + d * cos(b), y + d * sin(b)), "c": _player(ctx, 2)}), time=Decimal(1))
    # what the wrapped filter lets through of an earlier time: the players were elsewhere
    e = ctx.real("earlier dist", 0.125, 60)
    ctx.assume(ctx.or_(e - lim >= 1e-6, e - lim <= -1e-6))
    older = SimObservations(players=fd({"a": _player(ctx, 10, y, x), "g": _player(ctx, 11, y - e, x), "c": obs.players["c"]}), time=Decimal(1))
    seen = older if inner_keeps == "older" else obs

    class Inner(ObsFilter):
        calls = []

        def sense(self, scenario, full_obs, pov):
            Inner.calls.append((scenario, full_obs, pov))
            if inner_keeps == "older":
                return older
            return full_obs if inner_keeps else SimObservations(players=full_obs.players.delete("g"), time=full_obs.time)

    pov = ctx.choice("pov", ("a", "g"))
    out = GhostObsFilter(Inner(), "g", lim).sense("scenario", obs, pov)
    ctx.true(Inner.calls[-1] == ("scenario", obs, pov), "wrapped filter asked")
    if pov == "g" or not inner_keeps:
        hidden = not inner_keeps
    else:
        hidden = bool(ctx.cond((e if inner_keeps == "older" else d) > lim))
    ctx.true(set(out.players) == ({"a", "c"} if hidden else {"a", "g", "c"}), "ghost hidden exactly beyond its distance")
    for k in out.players:
        ctx.true(out.players[k] is seen.players[k], "observations unaltered")
    ctx.true(set(obs.players) == {"a", "g", "c"}, "full observations untouched")
    ctx.eq(out.time, Decimal(1), "time kept")


def ghost_always(ctx):
    """distance zero hides the player wherever it is"""
    d, b = ctx.real("dist", 0.001, 60), ctx.angle("bearing", -3.1, 3.1)
    obs = SimObservations(players=fd({"a": _player(ctx, 0, 1.0, 2.0), "g": _player(ctx, 1, 1.0 + d * cos(b), 2.0 + d * sin(b))}), time=Decimal(1))
    out = GhostObsFilter(IdObsFilter(), "g").sense(None, obs, "a")
    ctx.true(set(out.players) == {"a"}, "always hidden")
    out = GhostObsFilter(IdObsFilter(), "nobody").sense(None, obs, "a")
    ctx.true(out is obs or out == obs, "an absent ghost changes nothing")


def identity(ctx):
    obs = SimObservations(players=fd({"a": _player(ctx, 0), "g": _player(ctx, 1)}), time=ctx.real("t", 0, 9, kind="d"))
    out = IdObsFilter().sense(None, obs, ctx.choice("pov", ("a", "g")))
    ctx.true(out.players is obs.players, "passes everything")
    ctx.eq(out.time, obs.time, "time kept")


def delayed(ctx, n):
    ts = ctx.timestamps("t", n, 0, 20)
    lat = ctx.real("latency", 0, 12, kind="d")
    f = DelayedObsFilter(IdObsFilter(), lat)
    marks = []
    for i, t in enumerate(ts):
        players = fd({"me": PlayerObservations(VehicleState(x=float(i), y=0, psi=0, vx=0, delta=0), None)})
        marks.append(players)
        out = f.sense(None, SimObservations(players=players, time=t), "me")
        pick = 0
        for j in range(i + 1):
            if ctx.cond(ts[j] + lat <= t):
                pick = j
        ctx.true(out.players is marks[pick], "the latest observation at least the latency old")
        if ctx.cond(ts[0] + lat <= t):
            ctx.eq(out.time, ts[pick] + lat, "stamped with its time of delivery")
            ctx.true(ctx.cond(out.time <= t), "never stamped in the future")


def restarted(ctx, n, m):
    """a second episode with the same filter, over times before the end of the first one"""
    lat = ctx.real("latency", 0, 4, kind="d")
    f = DelayedObsFilter(IdObsFilter(), lat)
    see = lambda k: fd({"me": PlayerObservations(VehicleState(x=float(k), y=0, psi=0, vx=0, delta=0), None)})
    first, ts = ctx.timestamps("s", n, 0, 9), ctx.timestamps("t", m, 0, 9)
    ctx.assume(ts[0] < first[-1])
    for i, t in enumerate(first):
        f.sense(None, SimObservations(players=see(i), time=t), "me")
    marks = []
    for i, t in enumerate(ts):
        marks.append(see(10 + i))
        out = f.sense(None, SimObservations(players=marks[i], time=t), "me")
        pick = 0
        for j in range(i + 1):
            if ctx.cond(ts[j] + lat <= t):
                pick = j
        ctx.true(out.players is marks[pick], "an observation of this episode")


def shared(ctx, n):
    """one filter given to two players: each gets what itself has seen"""
    lat = ctx.real("latency", 0, 12, kind="d")
    inner = GhostObsFilter(IdObsFilter(), "b")  # a never sees b
    f = DelayedObsFilter(inner, lat)
    ts = ctx.timestamps("t", n, 0, 20)
    marks = []
    for i, t in enumerate(ts):
        st = lambda x: PlayerObservations(VehicleState(x=x, y=float(i), psi=0, vx=0, delta=0), None)
        marks.append(fd({"a": st(0.0), "b": st(5.0)}))
        pick = 0
        for j in range(i + 1):
            if ctx.cond(ts[j] + lat <= t):
                pick = j
        for who in ("a", "b") if i % 2 else ("b", "a"):
            out = f.sense(None, SimObservations(players=marks[i], time=t), who)
            ctx.true(set(out.players) == ({"a"} if who == "a" else {"a", "b"}), "what the player itself has seen")
            ctx.true(all(out.players[k] is marks[pick][k] for k in out.players), "the latest observation at least the latency old")


def nested(ctx, n):
    """a delay filter around a delay filter: the latencies add up"""
    l1, l2 = ctx.real("inner latency", 0, 8, kind="d"), ctx.real("outer latency", 0, 8, kind="d")
    f = DelayedObsFilter(DelayedObsFilter(IdObsFilter(), l1), l2)
    ts = ctx.timestamps("t", n, 0, 20)
    marks, inner = [], []  # inner: which observation came out of the inner filter, and since when it was due there
    for i, t in enumerate(ts):
        marks.append(fd({"me": PlayerObservations(VehicleState(x=float(i), y=0, psi=0, vx=0, delta=0), None)}))
        k = 0
        for j in range(i + 1):
            if ctx.cond(ts[j] + l1 <= t):
                k = j
        inner.append((k, ts[k] + l1))
        pick = 0
        for j in range(i + 1):
            if ctx.cond(inner[j][1] + l2 <= t):
                pick = j
        out = f.sense(None, SimObservations(players=marks[i], time=t), "me")
        ctx.true(out.players is marks[inner[pick][0]], "the latest observation due")


class Checker:
    """collision checker with hits chosen by the solver"""

    def __init__(self, plan):
        self.plan, self.objects, self.rays = plan, [], []

    def __call__(self):
        self.objects, self.rays = [], []
        return self

    def add_collision_object(self, o):
        self.objects.append(o)

    def raytrace(self, x0, y0, x1, y1, only_first=False):
        hits = self.plan[len(self.rays)] if len(self.rays) < len(self.plan) else []
        self.rays.append((x0, y0, x1, y1))
        f = lambda a: (x0 + a * (x1 - x0), y0 + a * (y1 - y0))
        return [(*f(a), *f(b)) for a, b in hits]


def rays(ctx, rng, field, hits, pose):
    """hits: for each ray the number of obstacles it meets"""
    x, y, th = (ctx.real("x", -20, 20), ctx.real("y", -20, 20), ctx.angle("theta", -3.1, 3.1)) if pose == "any" else pose
    s = VisRangeSensor(pose=SE2Transform([x, y], th), range=rng, field_of_view=field)
    n = max(int(field / math.atan(1 / rng)) + 1, 2)
    plan, dist = [], []
    for i in range(n):
        ds = []
        for j in range(hits[i % len(hits)]):
            ds.append((ctx.real(f"in{i}_{j}", 0.25, rng + 1), ctx.real(f"out{i}_{j}", 0.25, rng + 1)))
        flat = [d for p in ds for d in p]
        ctx.assume(ctx.and_(*[ctx.or_(d - rng >= 1e-3, d - rng <= -1e-3) for d in flat], *[ctx.or_(a - b >= 1e-3, a - b <= -1e-3) for k, a in enumerate(flat) for b in flat[:k]]))
        plan.append([(a / rng, b / rng) for a, b in ds])
        dist.append(flat)
    chk = Checker(plan)
    obstacles = [object(), object()]
    with symgeo(ctx), replaced(pycrcc.CollisionChecker, chk):
        poly = s.fov_as_polygon(obstacles)
    ctx.true(chk.objects == obstacles, "all obstacles can hide")
    ctx.true(len(chk.rays) == n, "rays across the field of view")
    pts = list(poly.exterior.coords)
    if pts[0] == pts[-1] or len(pts) > n:
        pts = pts[:-1]
    omni = field > 2 * math.pi - math.atan(1 / rng)
    if not omni:
        ctx.seq_eq(list(pts[0])[:2], [x, y], "starts at the sensor")
        pts = pts[1:]
    ctx.true(len(pts) == n, "one vertex per ray")
    c, sn = cos(th), sin(th)
    for i in range(n):
        a = -field / 2 + i * field / (n - 1)
        ca, sa = math.cos(a), math.sin(a)
        d = rng
        for h in dist[i]:
            d = ctx.ite(h < d, h, d)
        dx, dy = pts[i][0] - x, pts[i][1] - y
        ctx.eq(dx * c + dy * sn, d * ca, "closest hit or range limit along the ray", tol=1e-4)
        ctx.eq(dy * c - dx * sn, d * sa, "closest hit or range limit across the ray", tol=1e-4)


def full(ctx):
    """the full range sensor sees a disc"""
    x, y, r = ctx.real("x", -20, 20), ctx.real("y", -20, 20), ctx.real("range", 0.5, 30)
    s = FullRangeSensor(pose=SE2Transform([x, y], 0.5), range=r)
    with symgeo(ctx):
        p = s.fov_as_polygon([])
    ctx.eq(p.centroid.x, x, "centred on the sensor")
    ctx.eq(p.centroid.y, y, "centred on the sensor")
    ctx.eq(p.bounds[2] - p.bounds[0], 2 * r, "as wide as the range", tol=1e-2)
    ctx.raises(lambda: FullRangeSensor(pose=SE2Transform([x, y], 0.5), range=r, field_of_view=1.0).fov_as_polygon([]), NotImplementedError, "other fields of view refused")


HARNESSES = [H(fov, name=f"field of view:{n}{',invalid' if f else ''}", n=n, fail=f, budget=30) for n, f in ((2, False), (3, False), (2, True))]
HARNESSES += [H(ghost, name=f"ghost:{k}", inner_keeps=k, budget=30) for k in (True, False, "older")] + [H(ghost_always, budget=15), H(identity, budget=10)]
HARNESSES += [H(delayed, name=f"delayed:{n}", n=n, budget=40) for n in (3, 4)] + [H(delayed, name="delayed:5", n=5, tier="thorough", thorough_budget=300)]
O = (1.0, -2.0, 0.0)
HARNESSES += [H(rays, name="rays:any pose", rng=2.0, field=1.0, hits=(1, 0, 0), pose="any", budget=60), H(rays, name="rays:narrow", rng=2.0, field=0.3, hits=(1, 1), pose="any", budget=60), H(rays, name="rays:two hits", rng=2.0, field=1.0, hits=(0, 2, 1), pose=O, budget=60), H(rays, name="rays:all round", rng=0.75, field=2 * math.pi, hits=(1, 0), pose=O, budget=60), H(rays, name="rays:wide", rng=1.0, field=3.2, hits=(0, 1, 0, 1), pose=O, budget=60)]
HARNESSES += [H(full, budget=20)] + [H(restarted, name=f"restarted:{n},{m}", n=n, m=m, budget=40) for n, m in ((2, 2), (1, 3))]
HARNESSES += [H(shared, name=f"shared:{n}", n=n, budget=40) for n in (3,)]
HARNESSES += [H(nested, name="nested:3", n=3, budget=40), H(nested, name="nested:4", n=4, tier="thorough", thorough_budget=300)]

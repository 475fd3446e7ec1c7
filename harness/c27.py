"""Recorded traffic (CommonRoad obstacles) turned into models, agents and static obstacles."""
import math
from types import SimpleNamespace

import numpy as np
import scipy.optimize
from commonroad.geometry.shape import Rectangle
from commonroad.prediction.prediction import TrajectoryPrediction
from commonroad.scenario.obstacle import ObstacleType
from commonroad.scenario.scenario import Scenario
from shapely.strtree import STRtree

from dg_commons import PlayerName
from dg_commons.sim.agents.lane_follower import LFAgent
from dg_commons.sim.models.model_structures import BICYCLE, CAR, PEDESTRIAN
from dg_commons.sim.models.pedestrian import PedestrianModel
from dg_commons.sim.models.vehicle import VehicleModel
from dg_commons.sim.scenarios import DgScenario, NotSupportedConversion, load_commonroad_scenario
from dg_commons.sim.scenarios.factory import get_scenario_commonroad_replica
from dg_commons.sim.scenarios.model_from_dyn_obstacle import infer_model_from_cr_dyn_obstacle
from dg_commons.sim.scenarios.utils import dglane_from_position
from dg_commons.sim.scenarios.utils_dyn_obstacle import infer_lane_from_dyn_obs, is_dyn_obstacle_static
from dg_commons.sim.models.obstacles import StaticObstacle
from harness.util import cos, same_angle, sin, sqrt
from symx.engine import H
from symx.shims import replaced
from symx.symgeo import make, symgeo

META = {
    "id": "C27",
    "title": "Recorded traffic is replicated where it was, as large, as fast and on its lane",
    "statement": "A recorded vehicle or pedestrian becomes a model at its recorded pose and speed, with a wheelbase and track in fixed proportion to its recorded size and a steering angle from its first heading change; kinds that cannot be converted are refused, and skipped by the replica without losing others. The replica of a scenario holds every static and every standing obstacle at its recorded pose and every moving vehicle as a lane following player. Its lane is the route from a lane under its first position to a lane under its last position, the best aligned one if there are several, and its own recorded path if there is none.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic poses, speeds, sizes and heading changes (also across the wrap at pi) of every kind of obstacle; scenarios of up to 4 obstacles in every mix of kinds, moving or standing; all positions in a road network of up to 6 axis-parallel lanes under adversarial lane numberings"},
    "why_tests_cant": "tests load two recorded scenarios and check that the replica runs; they compare no pose, size or lane",
    "anchors": {"files": ["src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py", "src/dg_commons/sim/scenarios/utils_dyn_obstacle.py", "src/dg_commons/sim/scenarios/factory.py", "src/dg_commons/sim/scenarios/structures.py", "src/dg_commons/sim/scenarios/utils.py"],
                "mechanism": [{"name": "models", "where": "src/dg_commons/sim/scenarios/model_from_dyn_obstacle.py infer_model_from_cr_dyn_obstacle"},
                              {"name": "lanes", "where": "src/dg_commons/sim/scenarios/utils_dyn_obstacle.py infer_lane_from_dyn_obs, is_dyn_obstacle_static; scenarios/utils.py dglane_from_position"},
                              {"name": "replica", "where": "src/dg_commons/sim/scenarios/factory.py get_scenario_commonroad_replica; scenarios/structures.py DgScenario"}]},
}
ASSUMPTIONS = ["CommonRoad's file reader, obstacles, lanelets and lanelet network are replaced by stand-ins with the documented interface (lanelet look up by position, routes along successors together with the ids they are merged from, ids of merged lanelets made of their digits)",
               "shapely's Polygon and affine_transform are replaced by their defining formulas for symbolic coordinates, its spatial index by the list of its shapes (C14 checks the real one)",
               "scipy's minimize_scalar is replaced by any point of the (straight) lane: its heading is the same everywhere"]
KINDS = {"car": ObstacleType.CAR, "truck": ObstacleType.TRUCK, "bus": ObstacleType.BUS, "bicycle": ObstacleType.BICYCLE, "pedestrian": ObstacleType.PEDESTRIAN, "unknown": ObstacleType.UNKNOWN, "parked": ObstacleType.PARKED_VEHICLE, "motorcycle": ObstacleType.MOTORCYCLE}


class Shape(Rectangle):
    """a CommonRoad rectangle whose shapely twin may have symbolic corners"""

    def __init__(self, ctx, l, w):
        super().__init__(l, w)
        self._ctx = ctx

    @property
    def shapely_object(self):
        l, w = self._length / 2, self._width / 2
        return make(self._ctx, "polygon", [(l, w), (-l, w), (-l, -w), (l, -w)])


class Path(TrajectoryPrediction):
    def __init__(self, states):
        self._states = states

    @property
    def trajectory(self):
        return SimpleNamespace(state_list=self._states)


class Recorded(Scenario):
    def __init__(self, dyn, static, network):
        self._dyn, self._stat, self._net = dyn, static, network

    dynamic_obstacles = property(lambda self: self._dyn)
    static_obstacles = property(lambda self: self._stat)
    lanelet_network = property(lambda self: self._net)


def _state(x, y, th, v=0.0):
    return SimpleNamespace(position=np.array([x, y]), orientation=th, velocity=v)


def _obs(kind, shape, *states):
    return SimpleNamespace(obstacle_type=KINDS[kind], obstacle_shape=shape, initial_state=states[0], prediction=Path(list(states[1:])))


def model(ctx, kind, turn):
    x, y, v = ctx.real("x", -50, 50), ctx.real("y", -50, 50), ctx.real("v", 0, 30)
    l, w = ctx.real("length", 1, 12), ctx.real("width", 0.25, 3)
    d = ctx.real("heading_change", -0.5, 0.5)
    th = ctx.angle("psi", -3.1, 3.1) if turn is None else ctx.real("psi", *turn)
    th2 = th + d
    if turn is not None:  # recorded headings lie in [-pi, pi]
        k = 1 if turn[0] > 0 else -1
        ctx.assume(ctx.and_(k * th2 > math.pi, k * th < math.pi))
        th2 = th2 - k * 2 * math.pi
    o = _obs(kind, Shape(ctx, l, w), _state(x, y, th, v), _state(x + 1.0, y, th2, v))
    if kind in ("unknown", "parked", "motorcycle"):
        ctx.raises(lambda: infer_model_from_cr_dyn_obstacle(o, "red"), NotSupportedConversion, "refused")
        return
    m = infer_model_from_cr_dyn_obstacle(o, "red")
    s, g = m._state, m.model_geometry
    ctx.seq_eq([s.x, s.y, s.vx], [x, y, v], "recorded position and speed")
    if turn is None:
        same_angle(ctx, s.psi, th, "recorded heading")
        q = m.get_pose()
        ctx.seq_eq([q[0, 2], q[1, 2], q[0, 0], q[1, 0]], [x, y, cos(th), sin(th)], "recorded pose")
    else:
        ctx.eq(s.psi, th, "recorded heading")
    if kind == "pedestrian":
        ctx.true(isinstance(m, PedestrianModel) and m.model_type == PEDESTRIAN, "a pedestrian")
        ctx.seq_eq([s.vy, s.dpsi], [0.0, 0.0], "walking straight ahead")
        return
    ctx.true(isinstance(m, VehicleModel) and m.model_type == (BICYCLE if kind == "bicycle" else CAR), "kind of vehicle")
    ctx.eq(g.lf + g.lr, 0.7 * l, "wheelbase in proportion to the length")
    ctx.eq(g.lf, g.lr, "centred between the axles")
    ctx.eq(2 * g.w_half, 0.95 * w, "track in proportion to the width")
    ctx.eq(s.delta * (0.7 * l), d, "steering from the first change of heading")
    ctx.true(g.color == "red", "colour as asked for")
    if kind != "bicycle":
        ctx.ge(g.m, 0.0, "mass not negative")
        ctx.eq(6 * g.Iz, g.m * (l + w), "rotational inertia of the recorded size")
    other = infer_model_from_cr_dyn_obstacle(o, "blue")
    ctx.true(other._state is not s and other.model_geometry.color == "blue", "a model of its own")


def size(ctx):
    """the larger of two cars is the heavier one"""
    l, w = ctx.real("length", 1, 12), ctx.real("width", 0.5, 3)
    dl, dw = ctx.real("longer", 0.25, 3), ctx.real("wider", 0, 1)
    a, b = (infer_model_from_cr_dyn_obstacle(_obs("car", Shape(ctx, i, j), _state(0.0, 0.0, 0.0, 1.0), _state(1.0, 0.0, 0.0, 1.0)), "red").model_geometry for i, j in ((l, w), (l + dl, w + dw)))
    ctx.true(ctx.cond(b.m > a.m), "heavier")


def static(ctx, n):
    """an obstacle stands iff its recorded displacement is below the tolerance"""
    pts = [ctx.reals(f"p{i}", 2, -2, 2) for i in range(n + 1)]
    tol = ctx.real("tol", 0.0625, 2)
    o = _obs("car", None, *[_state(*p, 0.0) for p in pts])
    a, b = pts[-1][0] - pts[0][0], pts[-1][1] - pts[0][1]
    d2 = a * a + b * b
    for got, t in ((is_dyn_obstacle_static(o, tol=tol), tol), (is_dyn_obstacle_static(o), 0.2)):
        if ctx.cond(got):
            ctx.ge(t * t + 1e-9, d2, "did not move")
        else:
            ctx.ge(d2, t * t - 1e-9, "moved")


# ------------------------------------------------------------------------------------------------------------- lanes
class Lanelet:
    """an axis-parallel road piece of width 4 from (x0, y0) along `heading` (in quarter turns)"""

    def __init__(self, lid, x0, y0, quarter, length, successor=()):
        self.lanelet_id, self.o, self.quarter, self.length, self.successor = lid, (x0, y0), quarter, length, list(successor)
        self.d = ((1, 0), (0, 1), (-1, 0), (0, -1))[quarter % 4]
        n = (-self.d[1], self.d[0])
        ends = [(x0, y0), (x0 + self.d[0] * length, y0 + self.d[1] * length)]
        self.center_vertices = np.array([list(map(float, e)) for e in ends])
        self.left_vertices = np.array([[float(e[0] + 2 * n[0]), float(e[1] + 2 * n[1])] for e in ends])
        self.right_vertices = np.array([[float(e[0] - 2 * n[0]), float(e[1] - 2 * n[1])] for e in ends])

    def contains(self, ctx, p):
        (ax, ay), (bx, by) = self.right_vertices[0].tolist(), self.left_vertices[-1].tolist()
        return ctx.cond(ctx.and_(p[0] > min(ax, bx), p[0] < max(ax, bx), p[1] > min(ay, by), p[1] < max(ay, by)))

    def _routes(self, net):
        return [[self.lanelet_id] + r for s in self.successor for r in net.find_lanelet_by_id(s)._routes(net)] or [[self.lanelet_id]]

    def all_lanelets_by_merging_successors_from_lanelet(self, lanelet, network, max_length=150.0):
        routes = lanelet._routes(network)
        return [network.merged(r) for r in routes], routes

    find_lanelet_successors_in_range = property(lambda self: (lambda net, max_length=50.0: [r[1:] for r in self._routes(net) if r[1:]]))


class Network:
    def __init__(self, ctx, lanelets):
        self.ctx, self.lanelets = ctx, lanelets

    def find_lanelet_by_position(self, ps):
        return [[l.lanelet_id for l in self.lanelets if l.contains(self.ctx, p)] for p in ps]

    def find_lanelet_by_id(self, i):
        return next(l for l in self.lanelets if l.lanelet_id == i)

    def merged(self, ids):
        ls = [self.find_lanelet_by_id(i) for i in ids]
        m = SimpleNamespace(lanelet_id=int("".join(map(str, ids))), predecessor=[], successor=[])
        for k in ("left_vertices", "right_vertices", "center_vertices"):
            setattr(m, k, np.concatenate([getattr(ls[0], k)] + [getattr(l, k)[1:] for l in ls[1:]]))
        return m


def _town(name, ids):
    """(lanelets, all routes): road pieces of a small town under the given numbers"""
    i = list(ids)
    if name == "row":  # three pieces in a row
        return [Lanelet(i[0], 0, 0, 0, 10, [i[1]]), Lanelet(i[1], 10, 0, 0, 10, [i[2]]), Lanelet(i[2], 20, 0, 0, 10)]
    if name == "fork":  # straight on or to the neighbouring row behind
        return [Lanelet(i[0], 0, 0, 0, 10, [i[1], i[2]]), Lanelet(i[1], 10, 0, 0, 10), Lanelet(i[2], 10, 2, 0, 10, [i[3]]), Lanelet(i[3], 20, 6, 0, 10)]
    if name == "two":  # separate rows
        return [Lanelet(i[0], 0, 0, 0, 10, [i[1]]), Lanelet(i[1], 10, 0, 0, 10), Lanelet(i[2], 0, 8, 0, 10, [i[3]]), Lanelet(i[3], 10, 8, 0, 10)]
    if name == "crossing":  # four roads over one square, one per direction
        return [Lanelet(i[0], -5, 0, 0, 10), Lanelet(i[1], 0, -5, 1, 10), Lanelet(i[2], 5, 0, 2, 10), Lanelet(i[3], 0, 5, 3, 10)]
    if name == "both":  # opposite directions and a cross road
        return [Lanelet(i[0], -5, 0, 0, 10), Lanelet(i[1], 5, 0, 2, 10), Lanelet(i[2], 0, -5, 1, 10)]
    raise KeyError(name)


def _centre(lane):
    return [(c.q.p[0], c.q.p[1]) for c in lane.control_points]


def _any_point(fun, **k):
    return SimpleNamespace(x=0.5, fun=0.0, success=True)


def lane(ctx, town, ids, sector, box=None):
    ls = _town(town, ids)
    net = Network(ctx, ls)
    lo, hi = box or ((-2, -6), (32, 12))
    a = [ctx.real("x0", lo[0], hi[0]), ctx.real("y0", lo[1], hi[1])]
    b = [ctx.real("x1", lo[0], hi[0]), ctx.real("y1", lo[1], hi[1])]
    th = ctx.real("psi", *sector)
    mid = [ctx.real("xm", lo[0], hi[0]), ctx.real("ym", lo[1], hi[1])]
    states = [_state(*mid, 0.25), _state(*b, 0.5)]
    o = _obs("car", None, _state(*a, th), *states)
    if ctx.symbolic:
        with replaced(scipy.optimize.minimize_scalar, _any_point):
            got = infer_lane_from_dyn_obs(o, net)
    else:
        got = infer_lane_from_dyn_obs(o, net)
    routes = [r for l in ls if l.contains(ctx, a) for r in l._routes(net) if any(net.find_lanelet_by_id(k).contains(ctx, b) for k in r)]
    if not routes:
        ctx.true(len(got.control_points) == 2, "its own path")
        for c, s in zip(got.control_points, states):
            ctx.seq_eq([c.q.p[0], c.q.p[1], c.q.theta], [s.position[0], s.position[1], s.orientation], "recorded pose")
            ctx.eq(c.r, 1.5, "of 3 m width")
        return
    same = [r for r in routes if [tuple(map(float, p)) for p in net.merged(r).center_vertices] == _centre(got)]
    ctx.true(len(same) == 1, "a route from a lane of the first position to one of the last position")
    for c in got.control_points:
        ctx.eq(c.r, 2.0, "as wide as the lane")

    def off(r):
        d = th - (math.pi / 2) * net.find_lanelet_by_id(r[0]).quarter
        for k in (-1, 1):
            d = ctx.ite(abs(d + 2 * math.pi * k) < abs(d), d + 2 * math.pi * k, d)
        return abs(d)

    for r in routes:
        ctx.ge(off(r), off(same[0]) - 1e-6, "the best aligned one")


def lane_of(ctx, first, then):
    """the lane at a position: from the chosen lane there, along the chosen route"""
    ls = _town("fork", (7, 8, 9, 10)) + [Lanelet(11, 0, 0, 2, 8)]
    net = Network(ctx, ls)
    import commonroad.scenario.lanelet as crl

    class Merging:
        all_lanelets_by_merging_successors_from_lanelet = staticmethod(lambda lanelet, network, max_length=150.0: lanelet.all_lanelets_by_merging_successors_from_lanelet(lanelet, network))

    p = [ctx.real("x", -10, 30), ctx.real("y", -4, 10)]
    here = [l for l in ls if l.contains(ctx, p)]
    with replaced(crl.Lanelet, Merging, home=False):
        if not here:
            ctx.raises(lambda: dglane_from_position(p, net, first, then), AssertionError, "no lane there")
            return
        if first >= len(here) or then >= len(here[first]._routes(net)):
            ctx.raises(lambda: dglane_from_position(p, net, first, then), IndexError, "no such choice")
            return
        got = dglane_from_position(p, net, first, then)
    want = net.merged(here[first]._routes(net)[then])
    ctx.true(_centre(got) == [tuple(map(float, q)) for q in want.center_vertices], "the chosen route")


# ----------------------------------------------------------------------------------------------------------- replica
class Tree:
    def __init__(self, shapes, node_capacity=10):
        self.geometries = list(shapes)


def replica(ctx, kinds, ego=None, static=0):
    """kinds: capital = standing, small = moving"""
    poses, dyn = [], []
    for i, k in enumerate(kinds):
        x, y, th = ctx.real(f"x{i}", -50, 50), ctx.real(f"y{i}", -50, 50), ctx.angle(f"psi{i}", -3.1, 3.1)
        go = 0.125 if k[0].isupper() else 5.0
        v = ctx.real(f"v{i}", 0, 20)
        poses.append((x, y, th, v))
        dyn.append(_obs(k.lower(), Shape(ctx, 4.0, 2.0), _state(x, y, th, v), _state(x + go / 2, y, th, v), _state(x + go, y, th, v)))
    stat = []
    for i in range(static):
        q = ctx.real(f"sx{i}", -50, 50), ctx.real(f"sy{i}", -50, 50), ctx.angle(f"spsi{i}", -3.1, 3.1)
        l, w = ctx.real(f"sl{i}", 0.5, 5), ctx.real(f"sw{i}", 0.5, 3)
        stat.append((q, l, w, SimpleNamespace(obstacle_type=ObstacleType.ROAD_BOUNDARY, obstacle_shape=Shape(ctx, l, w), initial_state=_state(*q))))
    sc = Recorded(dyn, [s[3] for s in stat], Network(ctx, []))
    asked = []
    load = lambda name, d=None: asked.append((name, d)) or (sc, None)
    with symgeo(ctx), replaced(load_commonroad_scenario, load, home=False):
        if ctx.symbolic:
            with replaced(STRtree, Tree, home=False):
                c = get_scenario_commonroad_replica("town", "folder", ego_player=ego and PlayerName(ego), seed=7, description="d")
        else:
            c = get_scenario_commonroad_replica("town", "folder", ego_player=ego and PlayerName(ego), seed=7, description="d")
    ctx.true(asked == [("town", "folder")] and c.dg_scenario.scenario is sc and c.seed == 7 and c.description == "d", "the scenario asked for")
    moving = [i for i, k in enumerate(kinds) if k[0].islower() and k not in ("unknown", "motorcycle", "pedestrian")]
    name = lambda i: "Ego" if ego == f"P{i}" else f"P{i}"
    ctx.true(set(c.players) == set(c.models) == {name(i) for i in moving}, "a player per moving vehicle")
    for i in moving:
        x, y, th, v = poses[i]
        m, a = c.models[name(i)], c.players[name(i)]
        q = m.get_pose()
        ctx.seq_eq([q[0, 2], q[1, 2], q[0, 0], q[1, 0], m._state.vx], [x, y, cos(th), sin(th), v], "at its recorded pose and speed")
        ctx.true(isinstance(a, LFAgent), "a lane follower")
        ctx.seq_eq([*a.ref_lane.control_points[0].q.p, *a.ref_lane.control_points[1].q.p], [x + 2.5, y, x + 5.0, y], "on its recorded path")
        if kinds[i] == "car":
            ctx.true((m.model_geometry.color == "firebrick") == (name(i) == "Ego"), "the ego stands out")
    want = [(poses[i], 4.0, 2.0, dyn[i].obstacle_type) for i, k in enumerate(kinds) if k[0].isupper()] + [(q, l, w, ObstacleType.ROAD_BOUNDARY) for q, l, w, _ in stat]
    got = c.dg_scenario.static_obstacles
    ctx.true(len(got) == len(want) and len(c.dg_scenario.strtree_obstacles.geometries) == len(want), "every standing obstacle")
    for o, g, (p, l, w, t) in zip(got, c.dg_scenario.strtree_obstacles.geometries, want):
        ctx.true(o.obstacle_type == t and g is o.shape, "of its kind, and indexed")
        co, si = cos(p[2]), sin(p[2])
        for (ox, oy), (a, b) in zip(list(o.shape.exterior.coords), ((1, 1), (-1, 1), (-1, -1), (1, -1))):
            ex, ey = a * l / 2, b * w / 2
            ctx.seq_eq([ox, oy], [p[0] + co * ex - si * ey, p[1] + si * ex + co * ey], "at its recorded pose")


def scenario(ctx):
    """a world keeps its obstacles and does not share them"""
    x = ctx.real("x", -5, 5)
    with symgeo(ctx):
        a, b = (StaticObstacle(make(ctx, "polygon", [(x + k, 0.0), (x + k + 1, 0.0), (x + k + 1, 1.0)])) for k in (0, 5))
        given = [a, b]
        def build(*args, **kw):
            if not ctx.symbolic:
                return DgScenario(*args, **kw)
            with replaced(STRtree, Tree, home=False):
                return DgScenario(*args, **kw)
        s = build(static_obstacles=given)
        given.append(a)
        ctx.true(len(s.static_obstacles) == 2 and s.static_obstacles[0] is a and s.static_obstacles[1] is b, "its obstacles")
        ctx.true([g is o.shape for g, o in zip(s.strtree_obstacles.geometries, (a, b))] == [True, True], "all indexed, in order")
        e = build(use_road_boundaries=True)
        ctx.true(len(e.static_obstacles) == 0 and e.lanelet_network is None and len(s.static_obstacles) == 2, "an empty world")
        ctx.raises(lambda: build(static_obstacles=["wall"]), AssertionError, "only obstacles")


WRAP = {"left": (2.9, 3.1415), "right": (-3.1415, -2.9)}
HARNESSES = [H(model, name=f"model:{k}", kind=k, turn=None, budget=20) for k in KINDS]
HARNESSES += [H(model, name=f"model:car,{k}", kind="car", turn=t, budget=20) for k, t in WRAP.items()] + [H(size, budget=20)] + [H(static, name=f"static:{n}", n=n, budget=20) for n in (1, 2)]
NUM = {"plain": (1, 2, 3, 4), "digits": (12, 3, 1, 2), "prefix": (1, 21, 2, 11), "joint": (1, 3, 13, 31), "big": (412, 41, 124, 24)}
HARNESSES += [H(lane, name=f"lane:{t},{k}", town=t, ids=v, sector=(-0.5, 0.5), budget=40) for t in ("row", "fork", "two") for k, v in NUM.items()]
SECTORS = {"east": (-0.75, 0.75), "north": (0.8, 2.3), "west": (2.4, 3.14), "west-": (-3.14, -2.4), "south": (-2.3, -0.8)}
HARNESSES += [H(lane, name=f"lane:{t},{k}", town=t, ids=(5, 6, 7, 8), sector=v, box=((-6, -6), (6, 6)), budget=60) for t in ("crossing", "both") for k, v in SECTORS.items()]
HARNESSES += [H(lane_of, name=f"lane_of:{i},{j}", first=i, then=j, budget=20) for i in (0, 1) for j in (0, 1)]
HARNESSES += [H(replica, name="replica:" + "+".join(k) + (f",{e}" if e else "") + (f",{s}" if s else ""), kinds=k, ego=e, static=s, budget=40) for k, e, s in ((("car",), None, 0), (("car", "Car", "pedestrian"), None, 1), (("Truck", "unknown", "bicycle"), None, 2), (("unknown", "car", "motorcycle", "car"), "P3", 0), (("bus", "Pedestrian", "car"), "P0", 1), ((), None, 2))]
HARNESSES += [H(scenario, budget=10)]

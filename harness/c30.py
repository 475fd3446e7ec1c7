"""Road boundaries as obstacles and generated shapes."""
from contextlib import ExitStack
from types import SimpleNamespace

import numpy as np
import shapely.geometry
import shapely.ops
from commonroad.scenario.scenario import Scenario
from shapely.geometry import LinearRing, LineString, MultiLineString, MultiPolygon, Polygon
from shapely.strtree import STRtree

from dg_commons.maps.road_bounds import build_road_boundary_obstacle
from dg_commons.maps.shapes_generator import create_star_polygon
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.scenarios import DgScenario
from symx.engine import H
from symx.shims import replaced

META = {
    "id": "C30",
    "title": "Road boundaries leave exactly the ends of the road open",
    "statement": "The boundary of a road network is the outline of all its lanes, widened by the buffer asked for and with the outlines of its holes, opened at the first edge of every lane without predecessor and at the last edge of every lane without successor and nowhere else. A scenario with road boundaries has each of them as a static obstacle after its own ones, and has none without. Generated star shapes have the corners asked for around their centre.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic lane corners and buffers for every way up to 3 lanes can have or lack predecessors and successors; outlines in up to 2 pieces with up to 2 holes, in rings, single lines, several lines or nothing after opening; every centre, length and width of a star"},
    "why_tests_cant": "the tests only plot the boundaries of recorded scenarios, in all of which the outline is left in several pieces",
    "anchors": {"files": ["src/dg_commons/maps/road_bounds.py", "src/dg_commons/sim/scenarios/structures.py", "src/dg_commons/maps/shapes_generator.py"],
                "mechanism": [{"name": "boundary", "where": "src/dg_commons/maps/road_bounds.py build_road_boundary_obstacle"},
                              {"name": "scenario", "where": "src/dg_commons/sim/scenarios/structures.py DgScenario"},
                              {"name": "shapes", "where": "src/dg_commons/maps/shapes_generator.py"}]},
}
ASSUMPTIONS = ["shapely's buffer, union and difference are replaced by a term algebra that records what is computed from what (whether shapely computes them right is its own guarantee); concrete replays use the same stand-ins, and the harnesses real: drive across the boundaries that the real shapely computes for a concrete lane"]


def _of(cls):
    return property(lambda self: cls)


class Term:
    """a geometry known by how it was computed"""

    is_empty = False

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def buffer(self, r, *a, **k):
        assert not a and not k
        return Term("buffer", self, r)

    @property
    def geoms(self):
        raise AttributeError("geoms")


class Ring(Term):
    __class__ = _of(LinearRing)

    def __init__(self, world, name, cut=()):
        super().__init__("ring", name)
        self.world, self.name, self.cut = world, name, tuple(cut)

    def difference(self, gate):
        return self.world.left(self, gate)


class Single(Ring):
    __class__ = _of(LineString)


class Several(Ring):
    __class__ = _of(MultiLineString)

    @property
    def geoms(self):
        return [Piece(self, k) for k in range(self.world.pieces)]


class Nothing(Ring):
    __class__ = _of(LineString)
    is_empty = True


class Piece(Term):
    __class__ = _of(LineString)

    def __init__(self, whole, k):
        super().__init__("piece", whole, k)
        self.name, self.cut, self.k = whole.name, whole.cut, k


class Area(Term):
    __class__ = _of(Polygon)

    def __init__(self, world, k, holes):
        super().__init__("area", k)
        self.exterior, self.interiors = Ring(world, f"out{k}"), [Ring(world, f"hole{k}{j}") for j in range(holes)]


class Areas(Term):
    __class__ = _of(MultiPolygon)

    def __init__(self, areas):
        super().__init__("areas")
        self._areas = list(areas)

    @property
    def geoms(self):
        return list(self._areas)


class World:
    """answers of shapely: areas (numbers of holes), what is left of an outline after opening it"""

    def __init__(self, areas, kind, pieces):
        self.kind, self.pieces, self.unions = kind, pieces, []
        self.areas = [Area(self, k, h) for k, h in enumerate(areas)]

    def union(self, parts):
        self.unions.append(list(parts))
        return self.areas[0] if len(self.areas) == 1 else Areas(self.areas)

    def left(self, ring, gate):
        cls = {"several": Several, "single": Single, "nothing": Nothing}[self.kind]
        return cls(self, ring.name, ring.cut + (gate,))


def _net(ctx, n):
    lanes = []
    for k in range(n):
        pt = lambda t: np.array([[ctx.real(f"{t}x{k}{i}", -50, 50), ctx.real(f"{t}y{k}{i}", -50, 50)] for i in range(3)])
        lanes.append(SimpleNamespace(lanelet_id=k + 1, right_vertices=pt("r"), left_vertices=pt("l"), polygon=SimpleNamespace(shapely_object=Term("lane", k)),
                                     successor=[7] if ctx.boolean(f"succ{k}") else [], predecessor=[8] if ctx.boolean(f"pred{k}") else []))
    return lanes


class Map(Scenario):
    def __init__(self, lanes):
        self._l = lanes

    lanelet_network = property(lambda self: SimpleNamespace(lanelets=self._l))


def _stub(w):
    line = lambda pts, *a: Term("line", *[(p[0], p[1]) for p in pts])
    st = ExitStack()
    st.enter_context(replaced(shapely.ops.unary_union, w.union))
    st.enter_context(replaced(LineString, shim(LineString, line), home=False))
    st.enter_context(replaced(MultiPolygon, shim(MultiPolygon, Areas), home=False))
    return st


def shim(cls, make):
    meta = type("Meta", (type,), {"__instancecheck__": lambda c, x: isinstance(x, cls)})
    return meta("Shim", (), {"__new__": lambda c, *a: make(*a)})


def bounds(ctx, n, areas, kind, pieces, scenario):
    w = World(areas, kind, pieces)
    lanes = _net(ctx, n)
    b = ctx.real("buffer", 0, 1)
    own = []
    with _stub(w):
        if scenario is None:
            got, gates = build_road_boundary_obstacle(Map(lanes), buffer=b)
        else:
            own = [StaticObstacle(Polygon([(k, 0), (k + 1, 0), (k, 1)])) for k in range(scenario[1])]
            with replaced(STRtree, lambda shapes, **k: list(shapes)):
                sc = DgScenario(Map(lanes), static_obstacles=list(own), use_road_boundaries=scenario[0], road_boundaries_buffer=b)
            ctx.true(list(sc.static_obstacles[: len(own)]) == own, "own obstacles first")
            rest = sc.static_obstacles[len(own):]
            ctx.true(len(sc.strtree_obstacles) == len(sc.static_obstacles) and all(a is o.shape for a, o in zip(sc.strtree_obstacles, sc.static_obstacles)), "all obstacles are indexed")
            if not scenario[0]:
                ctx.true(not rest and not w.unions, "no boundaries unless asked for")
                return
            ctx.true(all(isinstance(o, StaticObstacle) for o in rest), "boundaries are obstacles")
            got, gates = [o.shape for o in rest], None
    ctx.true(len(w.unions) == 1 and len(w.unions[0]) == n, "all lanes are joined")
    for p, l in zip(w.unions[0], lanes):
        ctx.true(p.op == "buffer" and p.args[0] is l.polygon.shapely_object, "each lane widened")
        ctx.eq(p.args[1], b, "by the buffer")
    ends = []
    for l in lanes:
        ends += [(l.right_vertices[-1], l.left_vertices[-1])] * (not l.successor) + [(l.right_vertices[0], l.left_vertices[0])] * (not l.predecessor)
    rings = {}
    for g in got:
        rings.setdefault(g.name, []).append(g)
    holes = {f"hole{k}{j}" for k, h in enumerate(areas) for j in range(h)}
    outs = {f"out{k}" for k in range(len(areas))}
    if kind == "nothing" and ends:
        outs = set()
    ctx.true(set(rings) == holes | outs, "holes and outlines")
    for h in holes:
        ctx.true(len(rings[h]) == 1 and rings[h][0].cut == (), "holes stay whole")
    for o in outs:
        many = kind == "several" and ends
        ctx.true(len(rings[o]) == (pieces if many else 1), "every piece that is left")
        if many:
            ctx.true({g.k for g in rings[o]} == set(range(pieces)), "every piece that is left")
        for g in rings[o]:
            opened = g.cut
            ctx.true(len(opened) == len(ends), "one opening for each end of the road")
            for e in ends:
                near = []
                for gate in opened:
                    line = gate.args[0]
                    ctx.true(gate.op == "buffer" and line.op == "line" and len(line.args) == 2, "an edge, widened")
                    same = lambda p, q: ctx.and_(p[0] == q[0], p[1] == q[1])
                    near.append(ctx.or_(ctx.and_(same(line.args[0], e[0]), same(line.args[1], e[1])), ctx.and_(same(line.args[0], e[1]), same(line.args[1], e[0]))))
                ctx.true(ctx.or_(*near), "opened at that edge")
            for gate in opened:
                ctx.ge(gate.args[1], b, "wider than the lanes")
                ctx.le(gate.args[1], 2 * b, "as narrow as documented")
    if gates is not None:
        ctx.true(len(gates) == len(ends), "gates are returned")
        if outs:
            g = rings[sorted(outs)[0]][0]
            ctx.true(all(any(a is c for c in g.cut) for a in gates), "gates are the openings")


def real(ctx, succ, pred):
    """one straight lane with the real shapely: nothing is blocked at its open ends, everything else is"""
    b = 0.125
    x0, x1 = -6.0, 14.0
    r, l = np.array([[x0, -2.0], [x1, -2.0]]), np.array([[x0, 2.0], [x1, 2.0]])
    lane = SimpleNamespace(lanelet_id=1, right_vertices=r, left_vertices=l, polygon=SimpleNamespace(shapely_object=Polygon([*r, *l[::-1]])), successor=[2] if succ else [], predecessor=[2] if pred else [])
    got, gates = build_road_boundary_obstacle(Map([lane]), buffer=b)
    y = ctx.real("y", -1.5, 1.5)
    # a drive along the lane at height y crosses the lines whose end points lie on both sides of it
    hits = {False: 0, True: 0}
    for g in got:
        c = list(g.coords)
        for p, q in zip(c, c[1:]):
            if ctx.cond(ctx.or_(ctx.and_(p[1] < y, y < q[1]), ctx.and_(q[1] < y, y < p[1]))):
                hits[p[0] > 0] += 1
    ctx.true(hits[True] == (1 if succ else 0), "the far end is closed iff the road goes on there")
    ctx.true(hits[False] == (1 if pred else 0), "the near end is closed iff the road goes on there")


def star(ctx):
    x, y, p, t = ctx.real("x", -50, 50), ctx.real("y", -50, 50), ctx.real("p", 1, 20), ctx.real("t", 0.25, 1)
    ctx.assume(t < p / 2)
    pts = create_star_polygon(x, y, p, t)
    ctx.true(len(pts) == 8, "eight corners")
    spikes = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    for k, (a, b) in enumerate(spikes):
        ctx.true(ctx.or_(*[ctx.and_(q[0] == x + a * p, q[1] == y + b * p) for q in pts]), "spikes along the axes")
        c, d = spikes[(k + 1) % 4]
        ctx.true(ctx.or_(*[ctx.and_(q[0] == x + (a + c) * t, q[1] == y + (b + d) * t) for q in pts]), "notches along the diagonals")
    turn = [((q[0] - x) * (r[1] - y) - (q[1] - y) * (r[0] - x)) for q, r in zip(pts, pts[1:] + pts[:1])]
    ctx.true(ctx.or_(ctx.and_(*[k > 0 for k in turn]), ctx.and_(*[k < 0 for k in turn])), "once around the centre")


HARNESSES = [H(bounds, name=f"bounds:{n} lanes,{'+'.join(map(str, a))},{kind}{p}", n=n, areas=a, kind=kind, pieces=p, scenario=None, budget=120, tier="thorough" if n == 3 else "quick")
             for n, a, kind, p in ((1, (0,), "several", 2), (1, (1,), "single", 0), (2, (0, 2), "several", 3), (2, (0,), "single", 0), (2, (1, 0), "nothing", 0), (3, (2,), "several", 2), (3, (1, 1), "single", 0))]
HARNESSES += [H(bounds, name=f"scenario:{'roads' if r else 'none'},{k}", n=1, areas=(1,), kind="several", pieces=2, scenario=(r, k), budget=60) for r in (True, False) for k in (0, 2)]
HARNESSES += [H(real, name=f"real:{s}{p}", succ=s, pred=p, budget=60) for s in (True, False) for p in (True, False)]
HARNESSES += [H(star, name="star", budget=30)]

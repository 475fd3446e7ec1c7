"""What is drawn, lit and animated is what was simulated."""
from contextlib import contextmanager, nullcontext
from types import SimpleNamespace

import matplotlib.animation
import matplotlib.collections
import matplotlib.patches
import numpy as np
import commonroad.visualization.mp_renderer
from commonroad.visualization.mp_renderer import MPRenderer
from shapely.geometry import GeometryCollection, LineString, MultiLineString, MultiPoint, MultiPolygon, Point, Polygon

from dg_commons import DgSampledSequence, PlayerName
from dg_commons.maps.shapely_viz import ShapelyViz
from dg_commons.planning.trajectory import Trajectory
from dg_commons.sim import simulator_animation
from dg_commons.sim.goals import PlanningGoal
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.models.vehicle_ligths import LIGHTS_HAZARD, LIGHTS_HEADLIGHTS, LIGHTS_TURN_LEFT, LIGHTS_TURN_RIGHT, NO_LIGHTS
from dg_commons.sim.simulator_animation import adjust_axes_limits, create_animation, get_lights_colors_from_cmds
from dg_commons.sim.simulator_structures import PlayerLog, SimLog
from dg_commons.sim.simulator_visualisation import SimRenderer, approximate_bounding_box_players
from harness.models import build, scmds, sstate
from harness.util import F, cos, sin
from symx.engine import H
from symx.shims import replaced
from symx.symgeo import Coords, make, symgeo

META = {
    "id": "C29",
    "title": "What is drawn, lit and animated is what was simulated",
    "statement": "Every player is drawn with its outline, wheels, thrusters, flames and lamps at its simulated pose, when first drawn and whenever updated, and flames only burn while there is fuel. The lamps shown depend only on the light command, on braking and on the time: blinkers alternate with the dark phase, rear lamps in their normal red brighten while braking, whatever was shown before. Every frame of an animation shows all players, their planned trajectories and their time-varying goals at the frame's own time inside the axes' limits, and static obstacles and goals are drawn whole in their own colour.",
    "quantifier": {"over": ["inputs", "histories"], "text": "all symbolic states, steering and nozzle angles, commands and times for every kind of player, drawn twice; all sequences of 3 light commands with symbolic braking and times; animations of up to 4 frames over logs with symbolic states; all shape kinds with symbolic corners"},
    "why_tests_cant": "tests render a few animations and look at nothing in them; a frame drawn wrongly passes",
    "anchors": {"files": ["src/dg_commons/sim/simulator_visualisation.py", "src/dg_commons/sim/simulator_animation.py", "src/dg_commons/sim/models/vehicle_ligths.py", "src/dg_commons/maps/shapely_viz.py", "src/dg_commons/sim/simulator_structures.py"],
                "mechanism": [{"name": "player drawing", "where": "src/dg_commons/sim/simulator_visualisation.py SimRenderer.plot_player and plot_* functions"},
                              {"name": "lights", "where": "src/dg_commons/sim/simulator_animation.py lights_colors_from_lights_cmd; models/vehicle_ligths.py get_phased_lights"},
                              {"name": "frames", "where": "src/dg_commons/sim/simulator_animation.py create_animation, adjust_axes_limits"},
                              {"name": "shapes", "where": "src/dg_commons/maps/shapely_viz.py"}]},
}
ASSUMPTIONS = ["matplotlib's axes are replaced by a recorder of what is drawn, its patches and collections (for symbolic coordinates only) and FuncAnimation by objects that keep their arguments and call back frame by frame",
               "CommonRoad's renderer is replaced by one that only holds the axes: the road itself is drawn by CommonRoad",
               "blinking is checked away from the instants at which the phase changes"]
P, Q = PlayerName("P"), PlayerName("Q")
WHITE, YELLOW, RED, BRIGHT, ORANGE = (0.9, 0.9, 0.9), (1.0, 1.0, 0.0), (0.5, 0.0, 0.0), (1.0, 0.0, 0.0), (1.0, 0.5, 0.3)
LAMPS = ("front_left", "front_right", "back_left", "back_right")
SHOWN = {NO_LIGHTS: (WHITE, WHITE, RED, RED), LIGHTS_HEADLIGHTS: (YELLOW, YELLOW, RED, RED), LIGHTS_TURN_LEFT: (ORANGE, WHITE, ORANGE, RED), LIGHTS_TURN_RIGHT: (WHITE, ORANGE, RED, ORANGE), LIGHTS_HAZARD: (ORANGE,) * 4}
BLINK = (LIGHTS_TURN_LEFT, LIGHTS_TURN_RIGHT, LIGHTS_HAZARD)
PERIOD = 0.4


# ------------------------------------------------------------------------------------------------ recording the drawing
class Drawn:
    """an artist that keeps what it was told"""

    def __init__(self, kind, *a, **k):
        self.kind, self.args, self.style = kind, a, k
        self.pts = self.position = self.colour = self.text = None

    def set_xy(self, pts):
        self.pts = [(p[0], p[1]) for p in pts]

    def get_xy(self):
        return self.pts

    def set_position(self, p):
        self.position = (p[0], p[1])

    def set_color(self, c):
        self.colour = c

    def set_text(self, t):
        self.text = t

    def set_transform(self, t):
        pass

    def set_segments(self, segments):
        self.pts = [[(p[0], p[1]) for p in s] for s in segments]

    def set_offsets(self, pts):
        self.position = [(p[0], p[1]) for p in pts]


class Disc(Drawn):
    def __init__(self, xy, radius=5, **k):
        super().__init__("circle", **k)
        self.center, self.radius = tuple(xy), radius
        self.colour = k.get("color")


class Poly(Drawn):
    def __init__(self, xy, closed=True, **k):
        super().__init__("polygon", **k)
        self.set_xy(xy)


class Lines(Drawn):
    def __init__(self, segments, **k):
        super().__init__("lines", **k)


class Pen:
    """axes"""

    def __init__(self):
        self.drawn, self.limits, self.auto = [], {}, 0
        self.bbox = SimpleNamespace(size=np.array([640.0, 480.0]))
        self.figure = SimpleNamespace(tight_layout=lambda *a, **k: None)
        self.transAxes = None

    def _new(self, d):
        self.drawn.append(d)
        return d

    def fill(self, *a, **k):
        return [self._new(Drawn("fill", *a, **k))]

    def text(self, x, y, s, **k):
        d = self._new(Drawn("text", **k))
        d.position, d.text = (x, y), s
        return d

    def plot(self, *a, **k):
        return [self._new(Drawn("plot", *a, **k))]

    def scatter(self, *a, **k):
        return self._new(Drawn("points", *a, **k))

    def add_patch(self, p):
        return self._new(p)

    def add_collection(self, c):
        if not any(c is d for d in self.drawn):
            self._new(c)
        return c

    def axis(self, **k):
        self.limits = dict(k)

    def set_xlim(self, a, b):
        self.limits.update(xmin=a, xmax=b)

    def set_ylim(self, a, b):
        self.limits.update(ymin=a, ymax=b)

    def autoscale(self):
        self.auto += 1

    def clear(self):
        self.drawn = []

    def set_aspect(self, *a, **k):
        pass

    def get_facecolor(self):
        return (1.0, 1.0, 1.0, 1.0)


@contextmanager
def canvas(ctx):
    if not ctx.symbolic:
        yield
        return
    mp = matplotlib.patches
    old = mp.Polygon, mp.Circle
    with replaced(old[0], Poly, home=True), replaced(old[1], Disc, home=True), replaced(matplotlib.collections.LineCollection, Lines, home=True):
        yield


def _lines(c):
    return c.pts if isinstance(c, Lines) else [[(float(a), float(b)) for a, b in s] for s in c.get_segments()]


def _renderer(pen, models, missions=None, obstacles=(), log=None):
    r = object.__new__(SimRenderer)
    r.sim_context = _context(models, missions, obstacles, log)
    r.shapely_viz = ShapelyViz(ax=pen)
    return r


def _context(models, missions=None, obstacles=(), log=None):
    return SimpleNamespace(models=models, missions=missions or {}, log=log, dg_scenario=SimpleNamespace(scenario=None, static_obstacles=list(obstacles)))


def _at(s, p):
    c, n = cos(s.psi), sin(s.psi)
    return s.x + c * p[0] - n * p[1], s.y + n * p[0] + c * p[1]


def _on(q, p):
    x, y, th = q
    c, n = cos(th), sin(th)
    return x + c * p[0] - n * p[1], y + n * p[0] + c * p[1]


def _is(ctx, d, want, name, step=1):
    ctx.true(d.pts is not None and len(d.pts) == len(want), name + ": drawn")
    for i in range(0, len(want), step):
        ctx.seq_eq(list(d.pts[i]), list(want[i]), name, 1e-6)


# ------------------------------------------------------------------------------------------------------------- drawing
RECT = Polygon([(-1, -0.5), (1, -0.5), (1, 0.5), (-1, 0.5)])
FIELDS = {"car": ("x", "y", "psi", "delta"), "bicycle": ("x", "y", "psi", "delta"), "dyncar": ("x", "y", "psi", "delta"), "pedestrian": ("x", "y", "psi"), "diffdrive": ("x", "y", "psi"), "spacecraft": ("x", "y", "psi"), "rocket": ("x", "y", "psi", "phi", "m"), "spaceship": ("x", "y", "psi", "delta", "m"), "dynobs": ("x", "y", "psi")}


def draw(ctx, model, wheels, lights, step=1):
    xs = [sstate(ctx, model, t) for t in ("", "2")]
    m = build(ctx, model, sstate(ctx, model, "0") if ctx.symbolic else xs[0])
    u = [scmds(ctx, model, t, 0, 2) for t in ("u", "w")]
    pen, g = Pen(), None
    col = [SimpleNamespace()] * 2
    if lights:
        cmds = [ctx.choice("lights" + t, list(SHOWN)) for t in ("", "2")]
        col = [get_lights_colors_from_cmds(VehicleCommands(acc=1.0, ddelta=0.0, lights=c), 0.0) for c in cmds]
    r = _renderer(pen, {P: m})
    poly = lamps = None
    with canvas(ctx), symgeo(ctx):
        g = m.model_geometry
        for k, (x, c) in enumerate(zip(xs, u)):
            poly, lamps = r.plot_player(ax=pen, player_name=P, state=x, command=c, lights_colors=col[k] if lights else None, model_poly=poly, lights_patches=lamps, alpha=0.8, plot_wheels=wheels, plot_lights=lights)
            when = "first drawn" if k == 0 else "updated"
            n = len(pen.drawn) if k == 0 else n
            ctx.true(len(pen.drawn) == n, "nothing is drawn twice")
            shown = lambda kind: [d for d in pen.drawn if isinstance(d, Drawn) and d.kind == kind]
            fills = shown("fill")
            body = fills[0]
            out = [(p[0], p[1]) for p in g.outline] if model != "dynobs" else list(m.shape.exterior.coords)
            _is(ctx, body, [_at(x, p) for p in out], f"body at its pose when {when}", step)
            ctx.true(body.style.get("color") == g.color, "body in its own colour")
            rest = fills[1:]
            if model == "dynobs":
                ctx.true(not rest, "nothing else")
                continue
            text = shown("text")
            ctx.true(len(text) == 1 and text[0].text == P, "the player's name")
            ctx.seq_eq(list(text[0].position), [x.x, x.y], f"name at the player when {when}")
            if model in ("rocket", "spaceship", "spacecraft"):
                jets(ctx, model, g, m, x, c, rest, when, step)
            elif not wheels:
                ctx.true(not rest, "nothing else")
            else:
                places = [tuple(g.wheels_position[:2, i]) for i in range(g.n_wheels)]
                ctx.true(len(rest) == len(places), "all wheels")
                shape = [(g.wheel_outline[0, i], g.wheel_outline[1, i]) for i in range(g.wheel_outline.shape[1])]
                for d, w in zip(rest, places):
                    th = x.delta if model != "diffdrive" and w[0] > 0 else 0.0
                    _is(ctx, d, [_at(x, _on((w[0], w[1], th), p)) for p in shape], f"wheels turned when {when}", 1)
            if lights:
                ctx.true(len(lamps) == 4 and len([d for d in pen.drawn if not isinstance(d, Drawn) or d.kind == "circle"]) == 4, "four lamps")
                left = list(lamps)
                for name, w in zip(LAMPS, SHOWN[cmds[k]]):
                    px, py = _at(x, g.lights_position[name])
                    d = lamps[list(g.lights_position).index(name)]
                    ctx.seq_eq(list(d.center), [px, py], f"lamp in its place when {when}", 1e-6)
                    got = d.colour if ctx.symbolic else d.get_facecolor()[:3]
                    ctx.true(tuple(got[:3]) == w, f"lamp in its colour when {when}")


def jets(ctx, model, g, m, x, c, rest, when, step):
    n = g.n_thrusters
    flames = 0 if model == "spacecraft" else n
    ctx.true(len(rest) == n + flames, "all thrusters and flames")
    angle = {"rocket": "phi", "spaceship": "delta"}.get(model)
    out = g.thrusters_outline_in_body_frame(getattr(x, angle)) if angle else g.thrusters_outline_in_body_frame
    for d, o in zip(rest[:n], out):
        _is(ctx, d, [_at(x, p) for p in o], f"thrusters turned when {when}", step)
    if not flames:
        return
    if ctx.cond(x.m > m.model_params.m_v):
        force = [c.F_left, c.F_right] if model == "rocket" else c.thrust
        for d, o in zip(rest[n:], g.flames_outline_in_body_frame(getattr(x, angle), force)):
            _is(ctx, d, [_at(x, p) for p in o], f"flames when {when}", step)
    else:
        # (the commands may well go on asking for thrust)
        for d in rest[n:]:
            for q in d.pts:
                ctx.seq_eq(list(q), list(d.pts[0]), f"no flames without fuel when {when}", 1e-6)


# -------------------------------------------------------------------------------------------------------------- lights
def lamps(ctx, n):
    """a sequence of n light commands"""
    seq = []
    for k in range(n):
        cmd = ctx.choice(f"lights{k}", list(SHOWN))
        t, acc = ctx.real(f"t{k}", 0, 8), ctx.real(f"acc{k}", -5, 5)
        dark = False
        if cmd in BLINK:
            # phases change half way between multiples of the period
            j = ctx.int(f"phase{k}", 0, 20)
            ctx.assume(ctx.and_(t > (j - 0.5) * PERIOD + 1e-3, t < (j + 0.5) * PERIOD - 1e-3))
            dark = ctx.cond(j % 2 == 1)
        seq.append((cmd, acc, t, dark))
    for cmd, acc, t, dark in seq:
        got = get_lights_colors_from_cmds(VehicleCommands(acc=acc, ddelta=0.0, lights=cmd), t)
        want = list(SHOWN[NO_LIGHTS if dark else cmd])
        if ctx.cond(acc < 0):
            want = [BRIGHT if w == RED else w for w in want]
        for name, w in zip(LAMPS, want):
            ctx.true(tuple(getattr(got, name)) == w, f"{name} lamp")
    ctx.true(get_lights_colors_from_cmds(SimpleNamespace(acc=seq[0][1]), seq[0][2]) is None, "no lamps without light commands")


# -------------------------------------------------------------------------------------------------------------- limits
def window(ctx, n):
    states = [VehicleState(x=ctx.real(f"x{k}", -100, 100), y=ctx.real(f"y{k}", -100, 100), psi=ctx.angle(f"psi{k}", -3.1, 3.1) if k == 0 else 0.5, vx=ctx.real(f"v{k}", -20, 30), delta=0.0) for k in range(n)]
    names = [PlayerName(f"P{k}") for k in range(n)]
    ps = dict(zip(names, states))
    box = approximate_bounding_box_players(states)
    for i, c in ((0, "x"), (1, "y")):
        vs = [getattr(s, c) for s in states]
        for v in vs:
            ctx.true(ctx.cond(ctx.and_(box[i][0] <= v - 10, box[i][1] >= v + 10)), "10 m around every player")
        ctx.true(ctx.cond(ctx.and_(ctx.or_(*[box[i][0] == v - 10 for v in vs]), ctx.or_(*[box[i][1] == v + 10 for v in vs]))), "no more than 10 m")
    pen = Pen()
    adjust_axes_limits(pen, "auto", ps)
    L = pen.limits
    for s in states:
        ctx.true(ctx.cond(ctx.and_(L["xmin"] < s.x, s.x < L["xmax"], L["ymin"] < s.y, s.y < L["ymax"])), "every player inside the limits")
    pen = Pen()
    adjust_axes_limits(pen, names[0], ps)
    L, s = pen.limits, states[0]
    ctx.true(ctx.cond(ctx.and_(L["xmin"] < s.x - 10, s.x + 10 < L["xmax"], L["ymin"] < s.y - 10, s.y + 10 < L["ymax"])), "the followed player inside the limits")
    ctx.eq(L["xmax"] - L["xmin"], 70.0, "window of 70 m")
    ctx.eq(L["ymax"] - L["ymin"], 70.0, "window of 70 m")
    cx, cy = (L["xmin"] + L["xmax"]) / 2 - s.x, (L["ymin"] + L["ymax"]) / 2 - s.y
    ctx.ge(cx * cos(s.psi) * s.vx, 0.0, "shifted towards where it goes", 1e-6)
    ctx.ge(cy * sin(s.psi) * s.vx, 0.0, "shifted towards where it goes", 1e-6)
    pen = Pen()
    auto = []
    pen.autoscale = lambda *a, **k: auto.append(1)
    adjust_axes_limits(pen, PlayerName("nobody"), ps)
    ctx.true(auto == [1] and not pen.limits, "no window around somebody who is not there")
    pen = Pen()
    a, b = ctx.reals("limits", 4, -10, 10), None
    adjust_axes_limits(pen, [[a[0], a[1]], [a[2], a[3]]], ps)
    ctx.seq_eq([pen.limits[k] for k in ("xmin", "xmax", "ymin", "ymax")], a, "limits as given")


# -------------------------------------------------------------------------------------------------------------- shapes
def _of(cls):
    return property(lambda self: cls)


class Sym:
    is_empty = False

    def __init__(self, **k):
        self.__dict__.update(k)


class SymPoint(Sym):
    __class__ = _of(Point)


class SymLine(Sym):
    __class__ = _of(LineString)


class SymPolygon(Sym):
    __class__ = _of(Polygon)


MULTI = {c: type("Sym" + c.__name__, (Sym,), {"__class__": _of(c)}) for c in (MultiPoint, MultiLineString, MultiPolygon, GeometryCollection)}


def _xy(pts):
    return Sym(xy=([p[0] for p in pts], [p[1] for p in pts]), coords=Coords(pts))


def _shape(ctx, kind, tag):
    """(shape, what is to be drawn)"""
    a = [ctx.real(f"{tag}{c}", -9, 9) for c in "xy"]
    pt = lambda x, y: (a[0] + x, a[1] + y)
    if kind == "point":
        s = SymPoint(xy=([a[0]], [a[1]]), x=a[0], y=a[1], coords=Coords([tuple(a)])) if ctx.symbolic else Point(*a)
        return s, [("circle", [tuple(a)])]
    if kind == "line":
        pts = [pt(0, 0), pt(1, 0), pt(1, 2)]
        s = SymLine(xy=_xy(pts).xy, coords=Coords(pts)) if ctx.symbolic else LineString(pts)
        return s, [("plot", pts)]
    out, holes = [pt(0, 0), pt(4, 0), pt(4, 4)], []
    if kind == "holed":
        holes = [[pt(2, 0.5), pt(3, 0.5), pt(3, 1)], [pt(3.25, 0.5), pt(3.75, 0.5), pt(3.75, 2)]]
    if ctx.symbolic:
        s = SymPolygon(exterior=_xy(out + out[:1]), interiors=[_xy(h + h[:1]) for h in holes])
    else:
        s = Polygon(out, holes)
    return s, [("polygon", out)] + [("hole", h) for h in holes]


def shapes(ctx, kinds, multi, zorder):
    got = [_shape(ctx, k, f"s{i}") for i, k in enumerate(kinds)]
    want = [w for _, ws in got for w in ws]
    s = got[0][0] if multi is None else MULTI[multi](geoms=[g for g, _ in got]) if ctx.symbolic else multi([g for g, _ in got])
    pen = Pen()
    style = dict(color="red", alpha=0.5)
    if zorder is not None:
        style["zorder"] = zorder
    with canvas(ctx):
        ShapelyViz(ax=pen).add_shape(s, **style)
    ctx.true(len(pen.drawn) == len(want), "every part is drawn once")
    base = None
    for d, (kind, pts) in zip(pen.drawn, want):
        real = not isinstance(d, Drawn)
        if kind == "circle":
            got = [d.center]
            got = [tuple(c[0] if hasattr(c, "__len__") else c for c in p) for p in got]
            ok = real and isinstance(d, matplotlib.patches.Circle) or not real and d.kind == kind
        elif kind == "plot":
            ok, got = not real and d.kind == kind, list(zip(*d.args[:2]))
        else:
            ok = real and isinstance(d, matplotlib.patches.Polygon) or not real and d.kind == "polygon"
            got = [tuple(p) for p in d.get_xy()][: len(pts)]
        ctx.true(bool(ok), "kind of shape")
        ctx.true(len(got) == len(pts), "all its corners")
        for p, w in zip(got, pts):
            ctx.seq_eq(list(p), list(w), "corners in their places")
        if real:
            colour, z = d.get_facecolor()[:3], d.get_zorder()
        else:
            colour, z = d.style.get("color", d.style.get("facecolor")), d.style.get("zorder")
        if kind == "hole":
            ctx.true(tuple(colour)[:3] == (1.0, 1.0, 1.0), "holes show the background")
            ctx.true(z == base, "holes are not hidden")
        else:
            ctx.true(colour in ("red", (1.0, 0.0, 0.0)), "its own colour")
            base = z


# --------------------------------------------------------------------------------------------------------------- goals
class Moving(PlanningGoal):
    """a square goal whose corner moves with time"""

    def __init__(self, ctx, static, x, y, v):
        self._ctx, self._static, self.x, self.y, self.v = ctx, static, x, y, v

    def is_fulfilled(self, state, at=0):
        return False

    def corners(self, t):
        x = self.x if self._static else self.x + self.v * t
        return [(x + a, self.y + b) for a, b in ((0, 0), (2, 0), (2, 2), (0, 2))]

    def get_plottable_geometry(self, at=0):
        pts = self.corners(at)
        if self._ctx.symbolic:
            ring = _xy(pts + pts[:1])
            ring.coords.xy_ = ring.xy
            return SymPolygon(exterior=ring, interiors=[])
        return Polygon(pts)

    @property
    def is_static(self):
        return self._static


def arena(ctx, static):
    """obstacles and goals of a scenario"""
    pen = Pen()
    model = lambda c: SimpleNamespace(model_geometry=SimpleNamespace(color=c))
    goals = {p: Moving(ctx, s, ctx.real(f"gx{p}", -9, 9), ctx.real(f"gy{p}", -9, 9), ctx.real(f"gv{p}", -3, 3)) for p, s in zip((P, Q), static)}
    shape, want = _shape(ctx, "polygon", "o")
    obstacle = SimpleNamespace(shape=shape, geometry=SimpleNamespace(color="blue"))
    r = _renderer(pen, {P: model("red"), Q: model("green")}, goals, [obstacle])
    t1, t2 = ctx.real("t1", 0, 9), ctx.real("t2", 0, 9)
    with canvas(ctx):
        with r.plot_arena(pen):
            pass
        todo = [("blue", (0.0, 0.0, 1.0), want[0][1])] + [(c, f, goals[p].corners(0)) for p, c, f in ((P, "red", (1.0, 0.0, 0.0)), (Q, "green", (0.0, 0.5, 0.0))) if goals[p].is_static]
        ctx.true(len(pen.drawn) == len(todo), "obstacles and static goals, nothing else")
        for d, (c, f, pts) in zip(pen.drawn, todo):
            real = not isinstance(d, Drawn)
            col = tuple(round(k, 1) for k in d.get_facecolor()[:3]) if real else d.style.get("color")
            ctx.true(col in (c, f), "in its colour")
            for p, w in zip([tuple(p) for p in d.get_xy()], pts):
                ctx.seq_eq(list(p), list(w), "where it is")
        for p in (P, Q):
            n = len(pen.drawn)
            a = r.plot_timevarying_goals(ax=pen, player_name=p, t=t1)
            if goals[p].is_static:
                ctx.true(a is None and len(pen.drawn) == n, "static goals are drawn once")
                continue
            for t, again in ((t1, False), (t2, True)):
                if again:
                    b = r.plot_timevarying_goals(ax=pen, player_name=p, t=t, goal_box=a)
                    ctx.true(b is a and len(pen.drawn) == n + 1, "the drawn goal is moved")
                w = goals[p].corners(t)
                ctx.true(len(a.pts) >= 4, "goal drawn")
                for g, k in zip(a.pts, w):
                    ctx.seq_eq(list(g), list(k), "goal at its place at that time")


# -------------------------------------------------------------------------------------------------------------- frames
class Film:
    """FuncAnimation that shows every frame to `look`"""

    look = None

    def __init__(self, fig, func, frames=None, init_func=None, **k):
        self.func, self.init, self.n = func, init_func, frames

    def save(self, path, **k):
        self.init()
        type(self).look(None)
        for f in range(self.n):
            self.func(f)
            type(self).look(f)


def film(ctx, end, dt, extras, goal):
    """two cars over `end` seconds, one frame every dt ms; extras: when planned trajectories are logged"""
    # players and coordinates in a fixed order: C29 window checks the limits for any order
    lo = lambda t, k: (k, k + 40) if t[0] == "P" else (k + 50, k + 90)
    st = lambda t: VehicleState(x=ctx.real("x" + t, *lo(t, -50)), y=ctx.real("y" + t, *lo(t, 50)), psi=0.25, vx=ctx.real("v" + t, 0, 9), delta=ctx.real("d" + t, -0.5, 0.5))
    T = [0.0, float(end) / 2, float(end)]
    xs = {p: [st(f"{p}{k}") for k in range(3)] for p in (P, Q)}
    us = {p: [VehicleCommands(acc=-1.0 if k == 1 else 1.0, ddelta=0.0, lights=NO_LIGHTS) for k in range(3)] for p in (P, Q)}
    tx = [ctx.real(f"tx{k}", -50, 50) for k in range(3)]
    plan = [Trajectory(timestamps=[0, 1], values=[VehicleState(x=tx[k], y=2.0, psi=0.0, vx=1.0, delta=0.0), VehicleState(x=tx[k] + 1, y=3.0, psi=0.0, vx=1.0, delta=0.0)]) for k in range(3)]
    log = SimLog()
    for p in (P, Q):
        seq = lambda vs, ts=T: DgSampledSequence(timestamps=tuple(ts), values=tuple(vs))
        on = [k for k in extras] if p == P else []
        ex = seq([[(plan[k], "red")] for k in on], [T[k] for k in on]) if on else DgSampledSequence(timestamps=(), values=())
        log[p] = PlayerLog(states=seq(xs[p]), commands=seq(us[p]), extra=ex, info=seq([0.0] * 3))
    log.get_init_time = lambda: T[0]
    log.get_last_time = lambda: T[-1]
    pen = Pen()
    models = {p: build(ctx, "car", xs[p][0]) for p in (P, Q)}
    goals = {Q: Moving(ctx, False, ctx.real("gx", -9, 9), 0.0, ctx.real("gv", -3, 3))} if goal else {}
    c = _context(models, goals, (), log)
    seen = []

    def look(f):
        t = 0.0 if f is None else f * dt / 1000.0
        k = 0 if t < T[1] else 1
        w = (t - T[k]) / (T[1] - T[0])
        seen.append(f)
        fills = [d for d in pen.drawn if isinstance(d, Drawn) and d.kind == "fill"]
        for p, name in ((P, "P"), (Q, "Q")):
            a, b = xs[p][k], xs[p][k + 1]
            mix = lambda n: getattr(a, n) * (1 - w) + getattr(b, n) * w
            s = VehicleState(x=mix("x"), y=mix("y"), psi=0.25, vx=mix("vx"), delta=mix("delta"))
            body = [d for d in fills if d.style.get("color") == models[p].model_geometry.color]
            text = [d for d in pen.drawn if isinstance(d, Drawn) and d.kind == "text" and d.text == p]
            ctx.true(len(text) == 1, "every player is there once")
            ctx.seq_eq(list(text[0].position), [s.x, s.y], "player at its place at that time", 1e-6)
            i = 5 * (0 if p == P else 1)  # a body and four wheels each
            _is(ctx, fills[i], [_at(s, q) for q in models[p].model_geometry.outline], "body at its place at that time")
            lo = pen.limits
            ctx.true(ctx.cond(ctx.and_(lo["xmin"] < s.x, s.x < lo["xmax"], lo["ymin"] < s.y, s.y < lo["ymax"])), "inside the limits")
        lamps = [d for d in pen.drawn if (d.kind == "circle" if isinstance(d, Drawn) else isinstance(d, matplotlib.patches.Circle))]
        ctx.true(len(lamps) == 8, "lamps of both")
        back = [(d.colour if isinstance(d, Drawn) else d.get_facecolor()[:3]) for d in lamps[:2]]
        ctx.true(all(tuple(b) == (BRIGHT if k == 1 else RED) for b in back), "brake lamps at that time")
        now = [k2 for k2 in extras if T[k2] <= t]
        lines = [d for d in pen.drawn if (d.kind == "lines" if isinstance(d, Drawn) else isinstance(d, matplotlib.collections.LineCollection))]
        ctx.true(len(lines) == (1 if now else 0), "planned trajectories as logged")
        if now and lines:
            seg = _lines(lines[0])[0]
            ctx.seq_eq(list(seg[0]) + list(seg[-1]), [tx[now[-1]], 2.0, tx[now[-1]] + 1, 3.0], "the plan of that time")
        if goal and f is not None:
            box = fills[10]
            for g, q in zip(box.pts, goals[Q].corners(t)):
                ctx.seq_eq(list(g), list(q), "the goal at that time")

    Film.look = staticmethod(look)
    with canvas(ctx), symgeo(ctx), replaced(matplotlib.animation.FuncAnimation, Film), replaced(MPRenderer, lambda *a, **k: SimpleNamespace(ax=pen, draw_params=None)), replaced(simulator_animation.tqdm, lambda *a, **k: nullcontext(SimpleNamespace(update=lambda n: None)), home=False):
        create_animation("film.mp4", c, dt=dt)
    ctx.true(seen == [None] + list(range(int(end * 1000 // dt))), "one frame per time step")
    ctx.true(not pen.drawn, "axes cleared")


HARNESSES = []
for model, wheels, lights, step in (("car", True, True, 1), ("bicycle", True, True, 1), ("dyncar", True, True, 1), ("car", False, False, 1), ("pedestrian", False, False, 1), ("diffdrive", True, True, 8), ("diffdrive", False, False, 8), ("spacecraft", True, True, 4), ("rocket", True, True, 1), ("spaceship", True, True, 1), ("dynobs", True, True, 1)):
    lights = lights and model in ("car", "bicycle", "dyncar")
    HARNESSES.append(H(draw, name=f"draw:{model}{',bare' if not wheels and model != 'pedestrian' else ''}", model=model, wheels=wheels, lights=lights, step=step, budget=90))
HARNESSES += [H(lamps, name=f"lamps:{n}", n=n, budget=90, tier="thorough" if n == 3 else "quick") for n in (1, 2, 3)]
HARNESSES += [H(window, name=f"window:{n}", n=n, budget=60) for n in (1, 2, 3)]
HARNESSES += [H(shapes, name=f"shapes:{multi.__name__ if multi else 'one'},{'+'.join(kinds)}{',high' if z else ''}", kinds=kinds, multi=multi, zorder=z, budget=30)
              for multi, kinds, z in ((None, ("point",), 32), (None, ("line",), None), (None, ("polygon",), 32), (None, ("holed",), None), (None, ("holed",), 32), (MultiPoint, ("point",) * 2, None), (MultiLineString, ("line",) * 2, 32), (MultiPolygon, ("polygon", "holed", "polygon"), 32), (GeometryCollection, ("point", "line", "holed"), 32))]
HARNESSES += [H(arena, name=f"arena:{a}{b}", static=(a, b), budget=60) for a, b in ((True, True), (True, False), (False, False))]
HARNESSES += [H(film, name=f"film:{end} s,{dt} ms,{','.join(map(str, ex))}{',goal' if g else ''}", end=end, dt=dt, extras=ex, goal=g, budget=120) for end, dt, ex, g in ((1, 250, (0,), False), (1, 400, (), True), (0.5, 125, (1,), True), (1, 500, (0, 1), False), (1, 125, (0, 2), True), (2, 250, (0,), True))]

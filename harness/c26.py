"""Evaluation metrics: comfort, efficiency and safety."""
import contextlib
import math
from dataclasses import dataclass
from types import SimpleNamespace

import numpy as np
import scipy.optimize
from shapely.geometry import Polygon

from dg_commons import DgSampledSequence, PlayerName, SE2Transform
from dg_commons.eval.comfort import get_acc_rms, get_max_jerk
from dg_commons.eval.efficiency import distance_traveled, time_goal_lane_reached
from dg_commons.eval.safety import get_min_dist, get_min_ttc_max_drac, has_collision
from dg_commons.maps.lanes import DgLanelet, LaneCtrPoint
from dg_commons.sim import CollisionReport
from dg_commons.sim.models.vehicle import VehicleCommands, VehicleState
from dg_commons.sim.simulator_structures import PlayerLog, SimLog
from harness.simstubs import P, Q, R, Script
from harness.c27 import Lanelet, Network
from harness.c28 import closest
from harness.util import cos, sin, sqrt
from symx import symgeo as sgeo
from symx.engine import H
from symx.shims import replaced
from symx.symgeo import make, symgeo

META = {
    "id": "C26",
    "title": "Evaluation metrics measure what their definitions say",
    "statement": "Maximum jerk is the largest change rate of acceleration in the time range, the comfort value is the root mean square of the frequency weighted acceleration for any number of samples, and the distance travelled is the length of the path. The minimum distance is the smallest distance between the outlines of ego and any other unfinished player at any logged time in the range, with that player and time; time to collision is when the outlines would first touch at constant velocity, and the required deceleration stops the ego within the distance it covers until then. The goal lane is reached at the first state close to the centre of it or of a lane following it and aligned, and a collision is counted exactly if the ego is in a report.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic plans of up to 4 commands and ranges, all accelerations of 1 to 6 and 9 samples, all paths of up to 4 states, logs of 3 players at 2 times with every position, pose (distance of box outlines without turning; outlines placed for every heading) and subset of finished players, positions on or past the goal lane on roads of up to 3 lanes in a row or round a bend, every relative position and speed for times to collision up to 0.6 s at resolution 0.1 s (quick) and 3 s (thorough)"},
    "why_tests_cant": "no test runs an evaluation metric",
    "anchors": {"files": ["src/dg_commons/eval/comfort.py", "src/dg_commons/eval/efficiency.py", "src/dg_commons/eval/safety.py"],
                "mechanism": [{"name": "comfort", "where": "src/dg_commons/eval/comfort.py get_max_jerk, get_acc_rms"},
                              {"name": "efficiency", "where": "src/dg_commons/eval/efficiency.py distance_traveled, time_goal_lane_reached, desired_lane_reached"},
                              {"name": "safety", "where": "src/dg_commons/eval/safety.py get_min_dist, get_min_ttc_max_drac, has_collision"}]},
}
ASSUMPTIONS = ["real Fourier transforms of numpy are replaced by their definition; shapely's nearest points, distance, translation and intersection by exact ones for axis-parallel boxes",
               "comfort value: samples 0.1 s apart", "time to collision: the ego drives forward, centres apart, players approaching within 5 s; a contact within 1e-6 of a sampling instant is left open"]
INF = math.inf


def _range(ctx, which):
    lo = ctx.real("from", -1, 9) if "l" in which else None
    hi = ctx.real("to", -1, 9) if "h" in which else None
    return lo, hi


def _in(ctx, t, rng):
    if rng[0] is not None and ctx.cond(t < rng[0]):
        return False
    return rng[1] is None or not ctx.cond(t > rng[1])


@dataclass(frozen=True)
class Cmd:
    acc: float


def jerk(ctx, n, which):
    ts = [ctx.real("t0", 0, 2)]
    for i in range(1, n):
        ts.append(ts[-1] + ctx.real(f"dt{i}", 0.125, 2))
    a = ctx.reals("acc", n, -8, 8)
    rng = _range(ctx, which)
    got = get_max_jerk(DgSampledSequence[Cmd](ts, [Cmd(x) for x in a]), rng)
    hit = [got == 0]
    for i in range(1, n):
        if _in(ctx, ts[i], rng):
            j = (a[i] - a[i - 1]) / (ts[i] - ts[i - 1])
            ctx.ge(got, j, "no larger jerk in the range")
            ctx.ge(got, -j, "no larger jerk in the range")
            hit += [got - j <= 1e-9, got + j <= 1e-9] if not ctx.symbolic else [got == j, got == -j]
    ctx.ge(got, 0, "not negative")
    ctx.true(ctx.or_(*hit), "attained in the range")


class Cx:
    """complex number with symbolic parts"""

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __mul__(self, w):
        return Cx(self.re * w, self.im * w)

    __rmul__ = __mul__

    def __truediv__(self, w):
        return Cx(self.re / w, self.im / w)


def _tw(k, n):
    c, s = math.cos(2 * math.pi * k / n), math.sin(2 * math.pi * k / n)
    snap = lambda v: float(round(v)) if abs(v - round(v)) < 1e-12 else v
    return snap(c), snap(s)


def rfft(x):
    n = len(x)
    return [Cx(sum(v * _tw(j * k, n)[0] for j, v in enumerate(x)), sum(-v * _tw(j * k, n)[1] for j, v in enumerate(x))) for k in range(n // 2 + 1)]


def irfft(X, n=None):
    X = list(X)
    n = 2 * (len(X) - 1) if n is None else n
    if n < 1:
        raise ValueError(f"Invalid number of data points ({n}) specified.")
    out = []
    for j in range(n):
        s = X[0].re
        for k in range(1, n // 2 + 1):
            c, d = _tw(j * k, n)
            if k < len(X):
                s = s + X[k].re * c if 2 * k == n else s + 2 * (X[k].re * c - X[k].im * d)
        out.append(s / n)
    return np.array(out)


@contextlib.contextmanager
def fourier(ctx):
    if not ctx.symbolic:
        yield
        return
    old = np.fft.rfft, np.fft.irfft
    np.fft.rfft, np.fft.irfft = rfft, irfft
    try:
        yield
    finally:
        np.fft.rfft, np.fft.irfft = old


def weight(f):
    """ISO 2631 horizontal weighting, third order approximation"""
    return (14.55 * f**2 + 6.026 * f + 7.725) / (f**3 + 15.02 * f**2 + 51.63 * f + 47.61)


def rms(ctx, n, cut=None):
    """energy of the weighted spectrum (Parseval)"""
    a = ctx.reals("acc", n + (cut or 0), -5, 5)
    seq = DgSampledSequence[Cmd]([0.1 * i for i in range(len(a))], [Cmd(x) for x in a])
    with fourier(ctx):
        got = get_acc_rms(seq, (0.1 * cut - 0.05, None)) if cut else get_acc_rms(seq)
    a = a[cut or 0:]
    X, e = rfft(a), 0.0
    for k, x in enumerate(X):
        w = weight(k / (n * 0.1))
        e = e + (1 if k == 0 or 2 * k == n else 2) * w * w * (x.re * x.re + x.im * x.im)
    ctx.ge(got, 0, "not negative")
    ctx.eq(got * got * n * n, e, "mean square of the weighted acceleration", tol=1e-6)


def travelled(ctx, n):
    xs, want = [ctx.reals("p0", 2, -10, 10)], 0.0
    for i in range(1, n):
        d, th = ctx.real(f"d{i}", 0, 5), ctx.angle(f"dir{i}", -3.1, 3.1)
        xs.append([xs[-1][0] + d * cos(th), xs[-1][1] + d * sin(th)])
        want = want + d
    seq = DgSampledSequence[VehicleState]([0.5 * i for i in range(n)], [VehicleState(x=x, y=y, psi=0.0, vx=0.0, delta=0.0) for x, y in xs])
    ctx.eq(distance_traveled(seq), want, "length of the path")


def _box(ctx, w, h):
    return make(ctx, "polygon", [(-w, -h), (-w, h), (w, h), (w, -h), (-w, -h)])


def _model(ctx, w, h):
    return SimpleNamespace(vg=SimpleNamespace(outline_as_polygon=_box(ctx, w, h)))


def _st(x, y, psi=0.0, vx=0.0):
    return VehicleState(x=x, y=y, psi=psi, vx=vx, delta=0.0)


def _log(ts, states):
    u = VehicleCommands(acc=0.0, ddelta=0.0)
    return PlayerLog(states=DgSampledSequence[VehicleState](ts, states), commands=DgSampledSequence(ts, [u] * len(ts)), extra=DgSampledSequence([], []), info=DgSampledSequence(ts, [0.0] * len(ts)))


@dataclass(frozen=True)
class Done:
    """fulfilled for the states listed"""

    which: tuple

    def is_fulfilled(self, state, at=0):
        return any(d for s, d in self.which if s is state)


def _axis(ctx, gap):
    return ctx.ite(gap > 0, gap, 0)


def min_dist(ctx, names, which, done, times=2, free=()):
    """ego (names[0]) and others, at 2 times; distances along x"""
    ts = [0.0, 1.0, 2.5][:times]
    dims = {n: (w, 1.0) for n, w in zip(names, (2.0, 1.5, 0.5))}
    xs = {n: ctx.reals("x_" + n, times, -20, 20) for n in names}
    ys = {n: (ctx.real("y_" + n, -8, 8) if n == names[1] else 0.0) for n in names}
    fin = {n: [ctx.boolean(f"done_{n}{k}") if n in done else False for k in range(times)] for n in names}
    states = {n: [_st(xs[n][k], ys[n]) for k in range(times)] for n in names}
    logs = SimLog()
    for n in names:
        logs[n] = _log(ts, states[n])
    missions = {n: Done(tuple(zip(states[n], fin[n]))) for n in names if n not in free}
    rng = _range(ctx, which)
    ego = names[0]
    with symgeo(ctx):
        models = {n: _model(ctx, *dims[n]) for n in names}
        d, who, when = get_min_dist(logs, models, missions, ego, rng)
    cand = []
    for k, t in enumerate(ts):
        if not _in(ctx, t, rng) or ctx.cond(fin[ego][k]):
            continue
        for n in names[1:]:
            if ctx.cond(fin[n][k]):
                continue
            gx = _axis(ctx, abs(xs[n][k] - xs[ego][k]) - dims[n][0] - dims[ego][0])
            gy = _axis(ctx, abs(ys[n] - ys[ego]) - 2.0)
            cand.append((n, t, gx * gx + gy * gy))
    if not cand:
        ctx.true(who is None and when is None and d == INF, "nobody to be close to")
        return
    ctx.ge(d, 0, "a distance")
    for n, t, g2 in cand:
        ctx.le(d * d, g2, "nobody is closer at any time", tol=1e-6)
        if n == who and t == when:
            ctx.eq(d * d, g2, "the distance of that player at that time", tol=1e-5)
    ctx.true((who, when) in [c[:2] for c in cand], "an unfinished player at a time in the range")


def placed(ctx):
    """the outlines are placed at the players' poses, for every heading"""
    a, b = [(ctx.real("x" + n, -9, 9), ctx.real("y" + n, -9, 9), ctx.angle("psi" + n, -3.1, 3.1)) for n in "ab"]
    logs = SimLog()
    logs[P], logs[Q] = _log([0.0], [_st(*a)]), _log([0.0], [_st(*b)])
    missions = {P: Done(()), Q: Done(())}
    if not ctx.symbolic:
        d, who, t = get_min_dist(logs, {P: _model(ctx, 2, 1), Q: _model(ctx, 1.5, 0.5)}, missions, P)
        at = lambda p, w, h: Polygon([(p[0] + cos(p[2]) * u - sin(p[2]) * v, p[1] + sin(p[2]) * u + cos(p[2]) * v) for u, v in ((-w, -h), (-w, h), (w, h), (w, -h))])
        want = at(a, 2, 1).distance(at(b, 1.5, 0.5))
        for n in ("their distance", "outline at the pose"):
            ctx.eq(d, want, n, tol=1e-6)
        ctx.true((who, t) == (Q, 0.0), "the other player")
        return
    seen = []
    gap = ctx.stub("gap", 0, 5)

    def hook(p, q):
        seen.append((p, q))
        return sgeo.SPoint(0.0, 0.0), sgeo.SPoint(gap, 0.0)

    sgeo.HOOK = hook
    try:
        with symgeo(ctx):
            d, who, t = get_min_dist(logs, {P: _model(ctx, 2.0, 1.0), Q: _model(ctx, 1.5, 0.5)}, missions, P)
    finally:
        sgeo.HOOK = None
    ctx.true(bool(seen), "outlines compared")
    ctx.eq(d, gap, "their distance")
    ctx.true((who, t) == (Q, 0.0), "the other player")
    for shape in seen[0]:
        (x, y, th), (w, h) = ((a, (2.0, 1.0)) if shape is seen[0][0] else (b, (1.5, 0.5)))
        c, s = cos(th), sin(th)
        for (px, py), (ux, uy) in zip(list(shape.exterior.coords)[:4], ((-w, -h), (-w, h), (w, h), (w, -h))):
            ctx.eq(px, x + c * ux - s * uy, "outline at the pose")
            ctx.eq(py, y + s * ux + c * uy, "outline at the pose")


def ttc(ctx, steps, other="one", done=False, side=(1, 1)):
    """ego P drives forward along x; others along x in the same lane, ahead (side 1) or behind and faster (-1)"""
    names = [P, Q] if other == "one" else [P, Q, R]
    lx = {P: 2.0, Q: 1.5, R: 0.5}
    ve = ctx.real("v_ego", 0.5, 30)
    x, v = {P: ctx.real("x_ego", -5, 5)}, {P: ve}
    fin = {n: False for n in names}
    side = dict(zip(names[1:], side))
    for n in names[1:]:
        front = ctx.real("gap_" + n, 0.0, 20)
        close = ctx.real("closing_" + n, 0.5, 40)
        ctx.assume(close * (0.1 * steps - 0.0001) >= front)
        x[n], v[n] = x[P] + side[n] * (lx[P] + lx[n] + front), ve - side[n] * close
        ctx.assume(lx[P] + lx[n] + front <= 4.9 * close)
        if done and n == Q:
            fin[n] = ctx.boolean("done_Q")
    states = {n: _st(x[n], 0.0, 0.0, v[n]) for n in names}
    logs = SimLog()
    for n in names:
        logs[n] = _log([0.0], [states[n]])
    missions = {n: Done(((states[n], fin[n]),)) for n in names if n != P or other == "one"}
    with symgeo(ctx):
        models = {n: _model(ctx, lx[n], 1.0) for n in names}
        t, who, at, drac, dwho, dat = get_min_ttc_max_drac(logs, models, missions, P)
    live = [n for n in names[1:] if not ctx.cond(fin[n])]
    if not live:
        ctx.true(t == INF and drac == -INF and who is None and dwho is None, "nobody to collide with")
        return
    ctx.true(who in live and dwho in live and at == 0.0 and dat == 0.0, "one of the others")
    n = who
    gap = {n: side[n] * (x[n] - x[P]) - lx[P] - lx[n] for n in live}
    closing = {n: side[n] * (v[P] - v[n]) for n in live}
    ctx.le(gap[n], closing[n] * t, "touching at that time", tol=1e-6)
    ctx.true(ctx.or_(gap[n] >= closing[n] * (t - 0.1) - 1e-6, t <= 0.01), "not touching one step before")
    for n in live:
        ctx.true(ctx.or_(gap[n] >= closing[n] * (t - 0.1) - 1e-6, t <= 0.01), "nobody touches earlier")
    if ctx.cond(t > 0.05):
        ctx.eq(drac * 2 * ve * t, ve * ve, "stops within the distance covered", tol=1e-4)
    else:
        ctx.true(drac == INF, "no distance left")


def ttc_in_time(ctx, times, which):
    """the smallest time and the largest deceleration over all instants in the range"""
    ts = [0.0, 1.0, 2.5][:times]
    ve = ctx.real("v_ego", 0.5, 30)
    gap, close = [ctx.real(f"gap{k}", -0.5, 4) for k in range(times)], [ctx.real(f"closing{k}", 5, 20) for k in range(times)]
    hits = [ctx.boolean(f"hits{k}") for k in range(times)]
    want = {}
    rng = _range(ctx, which)
    for k, t in enumerate(ts):
        ctx.assume(ctx.or_(gap[k] <= 0.0999 * close[k], ctx.and_(gap[k] >= 0.1001 * close[k], gap[k] <= 0.1999 * close[k])))
        ctx.assume(ctx.or_(gap[k] <= -0.001, gap[k] >= 0.001))
        if _in(ctx, t, rng) and ctx.cond(hits[k]):
            want[t] = ctx.ite(gap[k] < 0, 0.0, ctx.ite(gap[k] <= 0.1 * close[k], 0.1, 0.2))
    logs = SimLog()
    xe = ctx.real("x_ego", -5, 5)
    logs[P] = _log(ts, [_st(xe, 0.0, 0.0, ve) for _ in ts])
    logs[Q] = _log(ts, [_st(xe + (3.5 + g) if ctx.cond(h) else 500.0, 0.0, 0.0, ve - c) for g, c, h in zip(gap, close, hits)])
    with symgeo(ctx):
        t, who, at, drac, dwho, dat = get_min_ttc_max_drac(logs, {P: _model(ctx, 2.0, 1.0), Q: _model(ctx, 1.5, 1.0)}, {}, P, rng)
    if not want:
        ctx.true((t, who, at, drac, dwho, dat) == (INF, None, None, -INF, None, None), "no collision ahead at any time")
        return
    ctx.true(who == Q and dwho == Q and at in want and dat in want, "the other player, at a time in the range")
    ctx.eq(t, want[at], "the time to collision at that instant", tol=1e-6)
    for w in want.values():
        ctx.le(t, w, "no instant has less time left", tol=1e-6)
    if drac == INF:
        ctx.eq(want[dat], 0.0, "no distance left at that instant", tol=1e-6)
    else:
        ctx.eq(drac * 2 * want[dat], ve, "the deceleration needed at that instant", tol=1e-4)
        for w in want.values():
            ctx.le(want[dat], w, "no instant needs to brake harder", tol=1e-6)


def leaving(ctx):
    """players driving apart, or standing off for long, never collide"""
    ve, close, gap = ctx.real("v_ego", 0.5, 30), ctx.real("closing", -30, 20), ctx.real("gap", 0.25, 60)
    ctx.assume(ctx.or_(close <= -0.01, ctx.and_(close >= 0.01, (gap + 3.5) > 5.001 * close)))
    a, b = _st(0.0, 0.0, 0.0, ve), _st(gap + 3.5, 0.0, 0.0, ve - close)
    logs = SimLog()
    logs[P], logs[Q] = _log([0.0], [a]), _log([0.0], [b])
    with symgeo(ctx):
        r = get_min_ttc_max_drac(logs, {P: _model(ctx, 2.0, 1.0), Q: _model(ctx, 1.5, 1.0)}, {P: Done(()), Q: Done(())}, P)
    ctx.true(r == (INF, None, None, -INF, None, None), "no collision ahead")


def beside(ctx):
    """passing with lateral clearance never touches; within it does"""
    y = ctx.real("y", -3, 3)
    ctx.assume(ctx.or_(abs(y) > 2.001, abs(y) < 1.999))
    x = ctx.real("x", -5, 5)
    a, b = _st(x, 0.0, 0.0, 20.0), _st(x + 5.0, y, 0.0, ctx.real("v", -10, 10))
    logs = SimLog()
    logs[P], logs[Q] = _log([0.0], [a]), _log([0.0], [b])
    with symgeo(ctx):
        t = get_min_ttc_max_drac(logs, {P: _model(ctx, 2.0, 1.0), Q: _model(ctx, 1.5, 1.0)}, {P: Done(()), Q: Done(())}, P)[0]
    ctx.true((t != INF) == ctx.cond(ctx.and_(y < 2, y > -2)), "touches exactly if it hits the other's side extent")


def crossing(ctx, steps, heading):
    """another player crosses the ego's way at a right angle"""
    ve, vo = ctx.real("v_ego", 0, 30), ctx.real("v_other", 0.5, 30)
    dx, dy = ctx.real("ahead", -12, 12), ctx.real("aside", 0, 25)
    up = -1 if heading > 0 else 1  # the other comes from the other side than it heads to
    X, Y = 3.0, 2.5  # half lengths and half widths of the two together
    inside = lambda k: ctx.and_(abs(dx - 0.1 * k * ve) <= X, abs(dy - 0.1 * k * vo) <= Y)
    for k in range(steps + 1):
        for a, b in ((abs(dx - 0.1 * k * ve), X), (abs(dy - 0.1 * k * vo), Y)):
            ctx.assume(ctx.or_(a >= b + 1e-4, a <= b - 1e-4))
    ctx.assume(inside(steps))
    closing = dx * ve + dy * vo  # the centres approach, by more than a fifth of their distance per second
    ctx.assume(ctx.and_(closing >= 0.01, dx * dx + dy * dy >= 0.01, dx * dx + dy * dy <= 4.99 * closing))
    x, y = ctx.real("x", -5, 5), ctx.real("y", -5, 5)
    logs = SimLog()
    logs[P], logs[Q] = _log([0.0], [_st(x, y, 0.0, ve)]), _log([0.0], [_st(x + dx, y + up * dy, heading, vo)])
    with symgeo(ctx):
        t, who, *_ = get_min_ttc_max_drac(logs, {P: _model(ctx, 2.0, 1.0), Q: _model(ctx, 1.5, 1.0)}, {}, P)
    ctx.true(who == Q, "the crossing player")
    for k in range(steps + 1):
        if ctx.cond(inside(k)):
            return ctx.eq(t, 0.1 * k, "the first step at which the two overlap", tol=1e-6)


def goal_lane(ctx, n):
    """first state in the lane close to its centre and aligned"""
    L = ctx.real("length", 20, 60)
    lane = DgLanelet([LaneCtrPoint(SE2Transform([0.0, 0.0], 0.0), 2.0), LaneCtrPoint(SE2Transform([L, 0.0], 0.0), 2.0)])
    tol, htol = ctx.real("pos_tol", 0.25, 1.5), ctx.real("heading_tol", 0.0625, 1)
    ts, states, frac, ok, goal = [0.0], [], [], [], []
    for i in range(n):
        if i:
            ts.append(ts[-1] + ctx.real(f"dt{i}", 0.25, 1))
        frac.append(ctx.choice(f"along{i}", (0.25, 0.75)))
        y, h = ctx.real(f"y{i}", -4, 4), ctx.real(f"psi{i}", -1.5, 1.5)
        ctx.assume(ctx.and_(*[ctx.or_(v > 1e-3, v < -1e-3) for v in (y - tol, y + tol, h - htol, h + htol)]))
        states.append(_st(frac[i] * L, y, h))
        goal.append(ctx.boolean(f"goal{i}"))
        ok.append(ctx.or_(goal[i], ctx.and_(y < tol, y > -tol, h < htol, h > -htol)))
    g = SimpleNamespace(ref_lane=lane, is_fulfilled=Done(tuple(zip(states, goal))).is_fulfilled)
    run = lambda: time_goal_lane_reached(None, g, DgSampledSequence[VehicleState](ts, states), pos_tol=tol, heading_tol=htol)
    if ctx.symbolic:
        it = iter(frac)
        mini = lambda fun, **k: (lambda f: SimpleNamespace(x=f, fun=fun(f), success=True))(next(it))
        with replaced(scipy.optimize.minimize_scalar, mini):
            got = run()
    else:
        got = run()
    for i in range(n):
        if ctx.cond(ok[i]):
            ctx.true(got is not None, "reached")
            return ctx.eq(got, ts[i], "time of the first state in the lane")
    ctx.true(got is None, "never reached")


class Piece(Lanelet):
    """a road piece with a vertex in its middle"""

    def __init__(self, lid, x0, y0, quarter, length, successor=(), predecessor=()):
        super().__init__(lid, x0, y0, quarter, length, successor)
        self.predecessor = list(predecessor)
        for k in ("left_vertices", "right_vertices", "center_vertices"):
            a, b = getattr(self, k)
            setattr(self, k, np.array([a, (a + b) / 2, b]))


def _road(name):
    if name == "row":  # the last two behind one another
        return [Piece(7, 0, 0, 0, 10, [3]), Piece(3, 10, 0, 0, 12, [5], [7]), Piece(5, 22, 0, 0, 10, [], [3])]
    return [Piece(4, 0, 0, 0, 10, [9]), Piece(9, 10, 0, 1, 12, [], [4])]  # a bend


class Endless(Exception):
    pass


class Asked(Network):
    """counts how many lanes are looked up"""

    n = 0

    def find_lanelet_by_id(self, i):
        self.n += 1
        if self.n > 8 * len(self.lanelets):
            raise Endless("the lanes are followed for ever")
        return super().find_lanelet_by_id(i)


def goal_route(ctx, road, goal, box):
    """past the goal lane: reached on a lane following it, close to the centre and aligned"""
    ls = _road(road)
    net = Asked(ctx, ls)
    x, y, h = ctx.real("x", box[0], box[2]), ctx.real("y", box[1], box[3]), ctx.real("psi", -1.5, 3)
    tol, htol = ctx.real("pos_tol", 0.25, 1), ctx.real("heading_tol", 0.0625, 1)
    other = ctx.boolean("goal")
    s = _st(x, y, h)
    lane = DgLanelet.from_commonroad_lanelet(ls[goal])
    g = SimpleNamespace(ref_lane=lane, is_fulfilled=lambda state, at=0: bool(ctx.cond(other)))
    away = lambda v, at, m: ctx.or_(v < at - m, v > at + m)
    beside = []
    for k, l in enumerate(ls):
        al = (x - l.o[0]) * l.d[0] + (y - l.o[1]) * l.d[1]
        lat = -(x - l.o[0]) * l.d[1] + (y - l.o[1]) * l.d[0]
        rel = h - l.quarter * math.pi / 2
        ctx.assume(ctx.and_(*[away(v, w, 1e-3) for v, w in ((lat, tol), (lat, -tol), (rel, htol), (rel, -htol))], away(al, 0, 1.01), away(al, l.length, 1.01)))
        near = ctx.and_(lat < tol, lat > -tol, rel < htol, rel > -htol, al > 0, al < l.length)
        if k >= goal:
            beside.append(near)
        if k == goal:
            ctx.assume(al > 0)
    with closest(ctx) if ctx.symbolic else contextlib.nullcontext():
        got = time_goal_lane_reached(net, g, DgSampledSequence[VehicleState]([0.5], [s]), pos_tol=tol, heading_tol=htol)
    want = ctx.cond(ctx.or_(other, *beside))
    ctx.true((got is not None) == want, "reached exactly if close to the centre of the goal lane or one following it, and aligned")
    ctx.true(got is None or got == 0.5, "time of that state")


def collided(ctx):
    names = [PlayerName("Ego"), PlayerName("A"), PlayerName("Ego2")]
    rep = lambda *p: CollisionReport(players={n: None for n in p}, at_time=0, impact_point=None, impact_normal=None)
    all_ = [rep(names[0], names[1]), rep(names[1], names[2]), rep(names[2], names[0])]
    pick = [ctx.boolean(f"report{i}") for i in range(3)]
    chosen = [r for r, p in zip(all_, pick) if ctx.cond(p)]
    got = has_collision(chosen)
    ctx.true(bool(got) == any(names[0] in r.players for r in chosen), "the ego is in a report")


HARNESSES = [H(jerk, name=f"jerk:{n},{w or 'all'}", n=n, which=w, budget=30) for n, w in ((1, ""), (2, "lh"), (3, "lh"), (4, ""), (3, "h"), (3, "l"))]
HARNESSES += [H(rms, name=f"rms:{n}", n=n, budget=20) for n in (1, 2, 3, 4, 5, 6, 9)] + [H(rms, name="rms:3 of 5", n=3, cut=2, budget=20)]
HARNESSES += [H(travelled, name=f"travelled:{n}", n=n, budget=20) for n in (1, 2, 4)]
HARNESSES += [H(min_dist, name="min_dist:range", names=[P, Q], which="lh", done=(), budget=40), H(min_dist, name="min_dist:finished", names=[Q, P], which="", done=(P, Q), budget=60),
              H(min_dist, name="min_dist:three times", names=[P, Q], which="", done=(), times=3, budget=60),
              H(min_dist, name="min_dist:no mission", names=[P, Q], which="", done=(P,), free=(Q,), budget=40),
              H(min_dist, name="min_dist:three", names=[P, Q, R], which="", done=(), times=1, budget=60), H(min_dist, name="min_dist:three,two", names=[P, Q, R], which="", done=(), tier="thorough", thorough_budget=500)]
HARNESSES += [H(placed, budget=20), H(ttc, name="ttc:6", steps=6, budget=60), H(ttc, name="ttc:two", steps=3, other="two", budget=60), H(ttc, name="ttc:finished", steps=3, other="two", done=True, budget=60), H(leaving, budget=20), H(beside, budget=40)]
HARNESSES += [H(goal_lane, name=f"goal_lane:{n}", n=n, budget=60) for n in (1, 2)] + [H(collided, budget=10)]
HARNESSES += [H(ttc, name="ttc:30", steps=30, tier="thorough", thorough_budget=600), H(ttc, name="ttc:two,6", steps=6, other="two", done=True, tier="thorough", thorough_budget=600)]
HARNESSES += [H(ttc_in_time, name="ttc in time:2,lh", times=2, which="lh", budget=60), H(ttc_in_time, name="ttc in time:3", times=3, which="", budget=60), H(ttc_in_time, name="ttc in time:3,lh", times=3, which="lh", tier="thorough", thorough_budget=300)]
HARNESSES += [H(ttc_in_time, name=f"ttc in time:2,{w}", times=2, which=w, budget=40) for w in "lh"] + [H(min_dist, name=f"min_dist:range {w}", names=[P, Q], which=w, done=(), budget=40) for w in "lh"]
HARNESSES += [H(goal_route, name="goal_route:row,0", road="row", goal=0, box=(1, -4, 30, 4), budget=40), H(goal_route, name="goal_route:row,1", road="row", goal=1, box=(11, -4, 30, 4), budget=40),
              H(goal_route, name="goal_route:bend", road="bend", goal=0, box=(1, -4, 13, 12), budget=60)]
HARNESSES += [H(ttc, name="ttc:behind", steps=6, side=(-1,), budget=60), H(ttc, name="ttc:both sides", steps=3, other="two", side=(1, -1), budget=60)]
HARNESSES += [H(crossing, name=f"crossing:{n},{'left' if h > 0 else 'right'}", steps=n, heading=h, budget=60) for n in (0, 1, 2) for h in (math.pi / 2, -math.pi / 2)]
HARNESSES += [H(crossing, name=f"crossing:{n}", steps=n, heading=math.pi / 2, tier="thorough", thorough_budget=300) for n in (4, 6)]

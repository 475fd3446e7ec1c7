"""Collision bookkeeping of the simulation."""
from decimal import Decimal

import numpy as np
from shapely.geometry import Point, Polygon

from dg_commons.sim import CollisionReport, SimParameters
from dg_commons.sim.collision_structures import CollisionReportPlayer, combine_collision_reports
from dg_commons.sim.models.obstacles import StaticObstacle
from dg_commons.sim.simulator import SimContext, Simulator
from dg_commons.sim.utils import run_simulation, who_collided
from dg_commons import PlayerName
from harness.simstubs import P, Q, R, Recorder, Script, StubModel, StubObstacle, square, world
from symx.engine import H

META = {
    "id": "C14",
    "title": "Every collision of the simulation is detected, reported and timed",
    "statement": "After every step that does not end the simulation, each pair of active players and each active player with each static obstacle whose shapes intersect yields exactly one report with the right players and the current time, unless the two are already separating; a contact that cannot be resolved is reported without details instead of stopping the simulation, and dynamic obstacles hitting the environment are not reported. The first collision time is the time of the earliest report, and the simulation ends with the first step more than the configured time after it. Combining two reports of the same players keeps the earlier time, contact and velocities before, takes the later velocities after, joins the locations and adds the energies, and the order of the arguments does not matter.",
    "quantifier": {"over": ["inputs", "histories"], "text": "every schedule over 3 steps of {apart, closing, separating, contained, touching} for two players, of a subset of overlapping pairs for three players, and of two collisions in the same step among four players, of hits with up to two of four obstacles; symbolic step length, durations, report times and energies"},
    "why_tests_cant": "the tests run a few crash scenarios and look at no report; schedules with several, simultaneous or unresolvable contacts and the end-of-simulation arithmetic are not exercised",
    "anchors": {"files": ["src/dg_commons/sim/simulator.py", "src/dg_commons/sim/collision_structures.py", "src/dg_commons/sim/collision_utils.py", "src/dg_commons/sim/utils.py"],
                "mechanism": [{"name": "collision checking", "where": "src/dg_commons/sim/simulator.py Simulator._check_collisions_among_players, _check_collisions_with_environment"},
                              {"name": "report combination", "where": "src/dg_commons/sim/collision_structures.py combine_collision_reports"}]},
}
ASSUMPTIONS = ["models are stand-ins following a schedule of concrete footprints and velocities; shapely decides which concrete shapes intersect"]
A0 = square(0, 0, 1)
KINDS = {"apart": square(9, 0, 1), "closing": square(1.5, 0.5, 1), "separating": square(1.5, 0.5, 1), "contained": square(0, 0, 3), "touching": square(2, 0, 1)}
HIT = ("closing", "contained", "touching")


class Mover(StubModel):
    """footprint and velocity follow the schedule after each update"""

    def __init__(self, who, shapes, vels):
        super().__init__(who, [A0] + list(shapes))
        self.vels = vels

    def update(self, commands, dt):
        super().update(commands, dt)
        self.v, self.w = np.array(self.vels[min(self._state.n, len(self.vels)) - 1]), 0.0


class MoverObstacle(Mover, StubObstacle):
    pass


def _par(ctx, n):
    dt = ctx.real("dt", "0.01", 1, kind="d")
    tmax, after = ctx.real("max_sim_time", 0, 10, kind="d"), ctx.real("after", 0, 10, kind="d")
    ctx.assume(ctx.and_(tmax < (n + 1) * dt, tmax >= dt))
    return SimParameters(dt=dt, dt_commands=dt, max_sim_time=tmax, sim_time_after_collision=after)


def _run(ctx, models, par, world_=None, missions=None):
    sc = SimContext(dg_scenario=world_ or world(), models=models, players={p: Recorder() for p in models}, param=par, missions=missions or {})
    run_simulation(sc)
    return sc, max(m._state.n for m in models.values())


def _ends(ctx, sc, steps, first, par):
    """first: step of the first collision or None"""
    dt = par.dt
    for k in range(1, steps + 1):
        over = k * dt > par.max_sim_time
        if first is not None and k > first:
            over = ctx.or_(over, k * dt > first * dt + par.sim_time_after_collision)
        ctx.true(over if k == steps else ctx.not_(over), "ends with the first step after which a timer has expired")
    if first is None:
        ctx.true(not sc.first_collision_ts.is_finite(), "no first collision time")
    else:
        ctx.eq(sc.first_collision_ts, first * dt, "first collision time")


def _expect(ctx, sc, want, dt):
    """want: list of (step, frozenset players, resolved) in any order within a step"""
    ctx.true(len(sc.collision_reports) == len(want), "one report per collision")
    left = list(sc.collision_reports)
    for k, who, resolved in want:
        found = [r for r in left if frozenset(r.players) == who and ctx.cond(r.at_time == k * dt)]
        ctx.true(len(found) >= 1, "collision reported with its players and time")
        if found:
            left.remove(found[0]) if False else None
            left = [r for r in left if r is not found[0]]
            detailed = all(v is not None for v in found[0].players.values()) and found[0].impact_point is not None
            ctx.true(detailed == resolved, "details given exactly for resolved collisions")
    ts = [r.at_time for r in sc.collision_reports]
    ctx.true(ctx.and_(*[a <= b for a, b in zip(ts, ts[1:])]), "reports in order of time")
    ctx.true(who_collided(sc) == frozenset(p for r in sc.collision_reports for p in r.players), "who collided")


def pair(ctx, n, kinds):
    par = _par(ctx, n)
    ks = [ctx.choice(f"kind{k}", kinds) for k in range(1, n + 1)]
    vq = [(-3.0, 0.0) if k == "closing" else (3.0, 3.0) for k in ks]
    models = {P: Mover("P", [A0] * n, [(1.0, 0.0)] * n), Q: Mover("Q", [KINDS[k] for k in ks], vq)}
    sc, steps = _run(ctx, models, par)
    hits = [k for k in range(1, steps) if ks[k - 1] in HIT]
    _expect(ctx, sc, [(k, frozenset({P, Q}), ks[k - 1] == "closing") for k in hits], par.dt)
    _ends(ctx, sc, steps, hits[0] if hits else None, par)
    closed = any(ks[k - 1] == "closing" for k in range(1, steps))
    ctx.true(models[P].has_collided == closed and models[Q].has_collided == closed, "marked as collided")


def three(ctx, n):
    """every subset of colliding pairs of three players"""
    par = _par(ctx, n)
    far = [square(100, 0, 1), square(0, 100, 1), square(100, 100, 1)]
    at = [[ctx.boolean(f"near_{p}_{k}") for p in "PQR"] for k in range(1, n + 1)]
    near = [square(0, 0, 1), square(1.5, 0.25, 1), square(0.25, 1.5, 1)]
    vel = [(0.0, 0.0), (-2.0, 0.0), (0.0, -2.0)]
    at = [[ctx.cond(b) for b in row] for row in at]
    models = {p: Mover(str(p), [near[i] if at[k][i] else far[i] for k in range(n)], [vel[i]] * n) for i, p in enumerate((P, Q, R))}
    gone = ctx.boolean("R leaves after the first step")
    sc, steps = _run(ctx, models, par, missions={R: Script(lambda s, t: bool(gone))})
    gone = ctx.cond(gone)
    if gone:
        ctx.true(steps == 1, "everybody with a mission is done")
        ctx.true(sc.collision_reports == [], "no collision checking after the end")
        return
    want, names = [], (P, Q, R)
    for k in range(1, steps):
        on = [i for i in range(3) if at[k - 1][i]]
        for i in on:
            for j in on:
                if i < j:
                    want.append((k, frozenset({names[i], names[j]})))
    got = [(r.at_time, frozenset(r.players)) for r in sc.collision_reports]
    # a response may already separate the later pairs of the same step, never the first pair
    ctx.true(all(w in [x for _, x in want] for _, w in got), "only overlapping pairs are reported")
    firsts = {}
    for k, w in want:
        firsts.setdefault(k, w)
    for k, w in firsts.items():
        ctx.true(sum(1 for t, x in got if x == w and ctx.cond(t == k * par.dt)) == 1, "the first overlapping pair of the step is reported once")
    _ends(ctx, sc, steps, min(firsts) if firsts else None, par)


def two_pairs(ctx, n):
    """two collisions of different players in the same step"""
    par = _par(ctx, n)
    S = PlayerName("S")
    at = [(ctx.cond(ctx.boolean(f"PQ{k}")), ctx.cond(ctx.boolean(f"RS{k}"))) for k in range(1, n + 1)]
    there, far = {Q: square(1.5, 0.25, 1), S: square(51.5, 0.25, 1)}, {Q: square(20, 0, 1), S: square(80, 0, 1)}
    fixed = {P: A0, R: square(50, 0, 1)}
    order = ctx.choice("order", [(P, Q, R, S), (P, R, Q, S), (S, P, R, Q)])
    models = {}
    for p in order:
        if p in fixed:
            models[p] = Mover(str(p), [fixed[p]] * n, [(0.0, 0.0)] * n)
        else:
            models[p] = Mover(str(p), [(there if at[k][0 if p == Q else 1] else far)[p] for k in range(n)], [(-2.0, 0.0)] * n)
    sc, steps = _run(ctx, models, par)
    want = [(k, frozenset(w), True) for k in range(1, steps) for w, hit in zip(((P, Q), (R, S)), at[k - 1]) if hit]
    _expect(ctx, sc, want, par.dt)
    _ends(ctx, sc, steps, want[0][0] if want else None, par)


def left_scene(ctx, n):
    """players that have finished no longer collide"""
    par = _par(ctx, n)
    models = {P: Mover("P", [A0] * n, [(1.0, 0.0)] * n), Q: Mover("Q", [KINDS["closing"]] * n, [(-3.0, 0.0)] * n), R: Mover("R", [square(50, 0, 1)] * n, [(0.0, 0.0)] * n)}
    leave = ctx.int("leave", 1, n)
    par = SimParameters(dt=par.dt, dt_commands=par.dt, max_sim_time=par.max_sim_time, sim_time_after_collision=Decimal(100))
    sc, steps = _run(ctx, models, par, missions={Q: Script(lambda s, t: s.n >= leave), R: Script(lambda s, t: False)})
    want = [(k, frozenset({P, Q}), True) for k in range(1, steps) if ctx.cond(k < leave)]
    _expect(ctx, sc, want, par.dt)


def environment(ctx, n, dynamic):
    """two obstacles: a wall and a box overlapping it partly"""
    par = _par(ctx, n)
    obs = [StaticObstacle(Polygon([(10, -5), (12, -5), (12, 5), (10, 5)])), StaticObstacle(Polygon([(9, 3), (20, 3), (20, 9), (9, 9)])),
           StaticObstacle(Polygon([(10, 15), (12, 15), (12, 30), (10, 30)])), StaticObstacle(Polygon([(-20, 20), (20, 20), (20, 23), (-20, 23)]))]
    spots = {"free": (square(0, 0, 1), []), "wall": (square(9.5, 0, 1), [0]), "both": (square(9.25, 2.5, 1), [0, 1]), "leaving": (square(9.5, 0, 1), None), "touch": (square(9, 0, 1), [-1]), "corner": (square(9.5, 19.5, 1), [2, 3])}
    ks = [ctx.choice(f"spot{k}", list(spots)) for k in range(1, n + 1)]
    vels = [(-3.0, 0.0) if k == "leaving" else (3.0, 1.0) for k in ks]
    cls = MoverObstacle if dynamic else Mover
    models = {P: cls("P", [spots[k][0] for k in ks], vels), Q: Mover("Q", [square(-50, 0, 1)] * n, [(0.0, 0.0)] * n)}
    sc, steps = _run(ctx, models, par, world(obs))
    hit = [k for k in range(1, steps) if spots[ks[k - 1]][1]]
    got = [r for r in sc.collision_reports]
    ctx.true(all(P in r.players and Q not in r.players for r in got), "only the player at the obstacle is reported")
    if dynamic:
        ctx.true(got == [], "dynamic obstacles hitting the environment are not reported")
        _ends(ctx, sc, steps, None, par)
        return
    per = {k: sum(1 for r in got if ctx.cond(r.at_time == k * par.dt)) for k in range(1, steps + 1)}
    for k in range(1, steps + 1):
        w = spots[ks[k - 1]][1] if k < steps else []
        lo, hi = (0, 0) if not w else (1, len(w))
        if k < steps and ks[k - 1] == "corner":
            lo = 2  # bouncing off one of the walls keeps the player moving into the other one
        ctx.true(lo <= per[k] <= hi, "one report per obstacle hit, none otherwise")
    for r in got:
        ctx.true(r.players[P] is None or r.players[P].at_fault, "the player is at fault")
    _ends(ctx, sc, steps, hit[0] if hit else None, par)


def _rep(ctx, k, players, none=()):
    e = {p: ctx.real(f"energy_{k}_{p}", -10, 10) for p in players}
    mk = lambda p: CollisionReportPlayer(locations=[(f"loc{k}", A0)], at_fault=k == 1, footprint=A0, velocity=(f"before{k}{p}", 0.0), velocity_after=(f"after{k}{p}", 0.0), energy_delta=e[p])
    t = ctx.real(f"time{k}", 0, 10, kind="d")
    return CollisionReport(players={p: None if p in none else mk(p) for p in players}, impact_point=Point(k, 0), impact_normal=np.array([float(k), 0.0]), at_time=t), e, t


def combine(ctx):
    (r1, e1, t1), (r2, e2, t2) = _rep(ctx, 1, (P, Q)), _rep(ctx, 2, (P, Q))
    ctx.assume(ctx.not_(t1 == t2))
    for c in (combine_collision_reports(r1, r2), combine_collision_reports(r2, r1)):
        one = ctx.cond(t1 < t2)
        f, s = (1, 2) if one else (2, 1)
        ctx.eq(c.at_time, t1 if one else t2, "earlier time")
        ctx.true(c.impact_point.x == f and c.impact_normal[0] == f, "earlier contact")
        ctx.true(set(c.players) == {P, Q}, "same players")
        for p in (P, Q):
            r = c.players[p]
            ctx.true(r.velocity[0] == f"before{f}{p}" and r.velocity_after[0] == f"after{s}{p}", "velocity before from the earlier, after from the later")
            ctx.true([l for l, _ in r.locations] == [f"loc{f}", f"loc{s}"] or sorted(l for l, _ in r.locations) == ["loc1", "loc2"], "locations joined")
            ctx.eq(r.energy_delta, e1[p] + e2[p], "energies added")
    ctx.true([l for l, _ in r1.players[P].locations] == ["loc1"] and [l for l, _ in r2.players[P].locations] == ["loc2"], "the reports themselves are unchanged")


def combine_three(ctx):
    rs = [_rep(ctx, k, (P,)) for k in (1, 2, 3)]
    ts = [t for _, _, t in rs]
    ctx.assume(ctx.and_(*[ctx.not_(a == b) for i, a in enumerate(ts) for b in ts[:i]]))
    # consecutive merging: first with second, then with third, for times in this order
    ctx.assume(ctx.and_(ts[0] < ts[1], ts[1] < ts[2]))
    a, b, c = [r for r, _, _ in rs]
    x, y = combine_collision_reports(combine_collision_reports(a, b), c), combine_collision_reports(a, combine_collision_reports(b, c))
    ctx.eq(x.at_time, y.at_time, "grouping does not matter (time)")
    ctx.eq(x.players[P].energy_delta, y.players[P].energy_delta, "grouping does not matter (energy)")
    ctx.true([l for l, _ in x.players[P].locations] == [l for l, _ in y.players[P].locations] and x.players[P].velocity_after == y.players[P].velocity_after, "grouping does not matter")


def combine_bad(ctx):
    (r1, _, t1), (r2, _, t2) = _rep(ctx, 1, (P, Q)), _rep(ctx, 2, (P, R))
    ctx.raises(lambda: combine_collision_reports(r1, r2), Exception, "different players are refused")


def combine_empty(ctx):
    """reports of contacts that could not be resolved carry no player details"""
    n1, n2 = ctx.boolean("first empty"), ctx.boolean("second empty")
    n1, n2 = ctx.cond(n1), ctx.cond(n2)
    (r1, e1, t1), (r2, e2, t2) = _rep(ctx, 1, (P, Q), (P, Q) if n1 else ()), _rep(ctx, 2, (P, Q), (P, Q) if n2 else ())
    ctx.assume(ctx.not_(t1 == t2))
    c = combine_collision_reports(r1, r2)
    ctx.eq(c.at_time, t1 if ctx.cond(t1 < t2) else t2, "earlier time")
    for p in (P, Q):
        ctx.true((c.players[p] is None) == (n1 and n2), "details kept when either report has them")
        if c.players[p] is not None:
            ctx.eq(c.players[p].energy_delta, (0 if n1 else e1[p]) + (0 if n2 else e2[p]), "energies added")


HARNESSES = [H(pair, name="pair", n=2, kinds=list(KINDS), budget=40), H(pair, name="pair_long", n=3, kinds=["apart", "closing", "separating"], budget=50),
             H(pair, name="pair_deep", n=4, kinds=list(KINDS), budget=300, tier="thorough"),
             H(three, n=2, budget=50), H(left_scene, n=3, budget=40), H(environment, name="environment", n=2, dynamic=False, budget=50), H(environment, name="environment_dynamic_obstacle", n=2, dynamic=True, budget=40),
             H(two_pairs, name="two_pairs", n=2, budget=40), H(two_pairs, name="two_pairs_3", n=3, budget=120, tier="thorough"),
             H(combine), H(combine_three), H(combine_bad), H(combine_empty)]

"""The simulation loop: clock, command cadence, logs, missions, end of the simulation."""
from decimal import Decimal

from dg_commons.sim import SimParameters
from dg_commons.sim.sim_perception import ObsFilter
from dg_commons.sim.simulator_structures import PlayerLogger, SimLog
from dg_commons.sim.simulator import SimContext, Simulator
from harness.simstubs import P, Q, R, Recorder, Script, StubModel, square, world
from harness.util import F as asf
from symx.engine import H

META = {
    "id": "C13",
    "title": "The simulation loop keeps time, cadence, missions and logs as configured",
    "statement": "Every model of an active player is advanced once per step by exactly the configured step, with the latest command of its own agent; agents are asked, all at the same instants, at the first step and then whenever at least the command interval has passed since they were last asked, and each is shown through its own sensor the states and footprints all active players had at that instant. Players leave at the end of the step in which their mission is fulfilled, and the simulation ends with the first step after which the maximum time is exceeded, or nobody is left, or everybody with a mission has finished. The log holds each player's state at every step while active (and on finishing) and every command, extra and computing time at the instants they were given, looking up an instant in between gives the interpolated state and the latest of the others, and a run is not affected by earlier runs of the same or another simulator.",
    "quantifier": {"over": ["inputs", "histories"], "text": "all symbolic step lengths, command intervals and maximum times with up to 5 steps (thorough: 8); every schedule of mission completion of 2 players (3 in the thorough tier) over 3 steps; scenes without collisions"},
    "why_tests_cant": "the tests run a few scenarios with one set of parameters and check no instant; off-by-one steps, stale observations and state leaking between runs stay invisible",
    "anchors": {"files": ["src/dg_commons/sim/simulator.py", "src/dg_commons/sim/simulator_structures.py"],
                "mechanism": [{"name": "simulation loop", "where": "src/dg_commons/sim/simulator.py Simulator.run/pre_update/update/post_update"},
                              {"name": "player log", "where": "src/dg_commons/sim/simulator_structures.py PlayerLogger, SimLog"}]},
}
ASSUMPTIONS = ["models, agents and goals are stand-ins that record what the simulator does to them; footprints are far apart"]
FAR = {P: square(0, 0), Q: square(50, 0), R: square(0, 50)}


def _ctx(names, params, missions=None, **kw):
    models = {p: StubModel(str(p), [FAR[p]]) for p in names}
    players = {p: Recorder(extra=lambda n: f"x{n}" if n % 2 else None) for p in names}
    return SimContext(dg_scenario=world(), models=models, players=dict(players), param=params, missions=missions or {}, **kw), models, players


class Tag(ObsFilter):
    def __init__(self):
        self.calls = []

    def sense(self, scenario, full_obs, pov):
        self.calls.append((scenario, full_obs, pov))
        return ("seen by", pov, full_obs)


def _params(ctx, n, same=False):
    dt = ctx.real("dt", "0.01", 1, kind="d")
    dtc = dt if same else ctx.real("dt_commands", "0.01", 3, kind="d")
    tmax = ctx.real("max_sim_time", 0, 10, kind="d")
    ctx.assume(tmax < n * dt)
    return SimParameters(dt=dt, dt_commands=dtc, max_sim_time=tmax, sim_time_after_collision=Decimal(0))


def _check_log(ctx, sc, p, agent, dt, asked, states_at, t0=0):
    log = sc.log[p]
    ctx.seq_eq(list(log.states.timestamps), [t0 + k * dt for k in states_at], f"{p}: states logged at every step")
    ctx.true([s.n for s in log.states.values] == list(states_at) and all(s.who == str(p) for s in log.states.values), f"{p}: logged states are the states at those instants")
    ctx.seq_eq(list(log.commands.timestamps), [t0 + k * dt for k in asked], f"{p}: commands logged when given")
    ctx.true(list(log.commands.values) == agent.cmds, f"{p}: commands logged")
    ctx.seq_eq(list(log.info.timestamps), [t0 + k * dt for k in asked], f"{p}: computing times logged when asked")
    ctx.seq_eq(list(log.extra.timestamps), [t0 + k * dt for i, k in enumerate(asked) if i % 2], f"{p}: extras logged when given")
    ctx.true(list(log.extra.values) == [f"x{i}" for i in range(len(asked)) if i % 2], f"{p}: extras logged")


def loop(ctx, n, late=False):
    par = _params(ctx, n)
    dt = par.dt
    t0 = ctx.real("t0", 0, 5, kind="d") if late else Decimal(0)
    tag = Tag()
    sc, models, agents = _ctx([P, Q], par, time=t0, seed=7)
    sc.sensors[Q] = tag
    if late:
        ctx.assume(t0 <= par.max_sim_time)
    Simulator().run(sc)
    steps = models[P]._state.n
    ctx.eq(sc.time, t0 + steps * dt, "clock after the run")
    ctx.true(steps >= 1, "at least one step")
    ctx.true(sc.time > par.max_sim_time, "ends only after the maximum time")
    ctx.true(sc.time - dt <= par.max_sim_time, "ends as soon as the maximum time is exceeded")
    ctx.true(sc.sim_terminated, "marked as terminated")
    asked = {}
    for p in (P, Q):
        m, a = models[p], agents[p]
        ctx.true(m._state.n == steps == len(m.dts), f"{p}: one update per step")
        ctx.seq_eq(m.dts, [dt] * steps, f"{p}: advanced by the step")
        used = m._state.cmds
        ctx.true(used[0] == a.cmds[0], f"{p}: asked at the first step")
        asked[p] = [k for k in range(steps) if k == 0 or used[k] != used[k - 1]]
        ctx.true([used[k] for k in asked[p]] == a.cmds, f"{p}: every command is used, in order, from the step it is given")
        last = 0
        for k in range(1, steps):
            due = (k - last) * dt >= par.dt_commands
            ctx.true(due if k in asked[p] else ctx.not_(due), f"{p}: asked exactly when the interval has passed")
            last = k if k in asked[p] else last
        _check_log(ctx, sc, p, a, dt, asked[p], range(steps), t0)
    ctx.true(asked[P] == asked[Q], "agents are asked at the same instants")
    for i, k in enumerate(asked[P]):
        tagq, povq, fullq = agents[Q].obs[i]
        full = agents[P].obs[i]
        ctx.true(tagq == "seen by" and povq == Q and tag.calls[i][0] is sc.dg_scenario, "the player's own sensor is used")
        for o in (full, fullq):
            ctx.eq(o.time, t0 + k * dt, "observation carries the instant")
            ctx.true(set(o.players) == {P, Q}, "all active players observed")
            for p in (P, Q):
                ctx.true(o.players[p].state.n == k and o.players[p].state.who == str(p), "states at the instant are observed")
                ctx.true(o.players[p].occupancy.equals(FAR[p]), "footprints are observed")
    ctx.true(sc.collision_reports == [], "no collision invented")


def missions(ctx, names, with_mission, n):
    """players finish according to a symbolic schedule"""
    par = _params(ctx, n, same=True)
    dt = par.dt
    done = {p: [ctx.boolean(f"done_{p}_{k}") for k in range(1, n + 1)] for p in with_mission}
    ms = {p: Script(lambda s, at, p=p: bool(done[p][min(s.n, n) - 1])) for p in with_mission}
    sc, models, agents = _ctx(names, par, missions=ms)
    Simulator().run(sc)
    steps = max(m._state.n for m in models.values())
    fin = {}
    for p in with_mission:
        seq = [k for k in range(1, steps + 1) if ctx.cond(done[p][k - 1])]
        fin[p] = seq[0] if seq else None
    for p in names:
        stop = fin.get(p)
        ctx.true(models[p]._state.n == (stop if stop is not None else steps), f"{p}: advanced until its mission is fulfilled")
        ctx.true((p in sc.players) == (stop is None), f"{p}: leaves when finished, stays otherwise")
        k = models[p]._state.n
        _check_log(ctx, sc, p, agents[p], dt, range(k), list(range(k)) + ([k] if stop is not None else []))
        for i, o in enumerate(agents[p].obs):
            ctx.true(set(o.players) == {r for r in names if fin.get(r) is None or fin[r] > i}, "only active players are observed")
    for p, m in ms.items():
        ctx.seq_eq([t for _, t in m.log], [k * dt for k, _ in m.log], f"{p}: goal evaluated at the right time")
    ctx.true(set(sc.log) == set(names), "everybody is logged")
    ends = [k for k in range(1, steps + 1)]
    for k in ends:
        all_done = bool(with_mission) and all(fin[p] is not None and fin[p] <= k for p in with_mission)
        over = True if all_done else k * dt > par.max_sim_time
        ctx.true(over if k == steps else ctx.not_(over), "ends with the first step after which time is over or all missions are done")


def init(ctx):
    par = _params(ctx, 1, same=True)
    goal = Script(lambda s, at: False)
    sc, models, agents = _ctx([P, Q], par, missions={P: goal}, seed=ctx.int("seed", 0, 1000))
    models[Q]._geo = type(models[Q]._geo)(m=5.0, Iz=2.0, e=0.1, color="blue")
    Simulator().run(sc)
    for p in (P, Q):
        ctx.true(len(agents[p].init) == 1, "initialised once")
        o = agents[p].init[0]
        ctx.true(o.my_name == p and o.model_geometry == models[p].model_geometry and o.model_params == models[p].model_params, "told its own name, geometry and parameters")
        ctx.eq(o.seed, sc.seed, "told the seed")
        ctx.true(o.dg_scenario is not None and o.dg_scenario is not sc.dg_scenario, "given its own copy of the scenario")
        ctx.true((o.goal is None) if p == Q else (o.goal is not None and o.goal is not goal), "given its own copy of its goal")


def again(ctx, n, fresh):
    """an earlier run with the same simulator, or another one, changes nothing"""
    par = _params(ctx, n)
    sim = Simulator()
    other, _, oagents = _ctx([P, Q], par)
    sim.run(other)
    before = {p: (tuple(other.log[p].states.timestamps), tuple(other.log[p].commands.values)) for p in (P, Q)}
    sc, models, agents = _ctx([P, Q], par)
    (Simulator() if fresh else sim).run(sc)
    for p in (P, Q):
        ctx.true(len(agents[p].cmds) == len(oagents[p].cmds), "as many requests as in the first run")
        ctx.true(len(agents[p].cmds) > 0 and models[p]._state.cmds[0] == agents[p].cmds[0], "commands come from its own agent")
        ctx.seq_eq(list(sc.log[p].states.timestamps), list(other.log[p].states.timestamps), "same instants logged")
        ctx.seq_eq(list(sc.log[p].commands.timestamps), list(other.log[p].commands.timestamps), "same command instants logged")
        ctx.true(list(sc.log[p].commands.values) == agents[p].cmds, "own commands logged")
        ctx.true(before[p][1] == tuple(other.log[p].commands.values), "the first log is untouched")


def interleaved(ctx, n):
    """a second simulation is started from within the first one (same process, different simulator)"""
    par = _params(ctx, n, same=True)
    inner, im, ia = _ctx([P, Q], par)

    class Nested(Recorder):
        def get_commands(self, sim_obs):
            if not self.cmds:
                Simulator().run(inner)
            return super().get_commands(sim_obs)

    sc, models, agents = _ctx([P, Q], par)
    agents[P] = sc.players[P] = Nested()
    Simulator().run(sc)
    for s, m, a in ((sc, models, agents), (inner, im, ia)):
        for p in (P, Q):
            ctx.true(list(s.log[p].commands.values) == a[p].cmds, "own commands logged")
            ctx.true(set(m[p]._state.cmds) <= set(a[p].cmds), "own commands applied")
            ctx.true([x.n for x in s.log[p].states.values] == list(range(m[p]._state.n)), "own states logged")


def log_at(ctx, n):
    par = _params(ctx, n)
    sc, models, agents = _ctx([P, Q], par)
    Simulator().run(sc)
    steps = models[P]._state.n
    t = ctx.real("t", 0, 10, kind="d")
    ctx.eq(sc.log.get_init_time(), 0, "log starts with the simulation")
    ctx.eq(sc.log.get_last_time(), (steps - 1) * par.dt, "log ends with the last step")
    ctx.assume(ctx.and_(t >= 0, t <= (steps - 1) * par.dt))
    for p in (P, Q):
        lg = sc.log[p]
        got_cmd, got_info = lg.commands.at_or_previous(t), lg.info.at_or_previous(t)
        i = list(lg.commands.values).index(got_cmd)
        ts = list(lg.commands.timestamps)
        ctx.true(ts[i] <= t, "command was given by then"), ctx.true(ctx.or_(i + 1 == len(ts), ts[min(i + 1, len(ts) - 1)] > t), "no later command was given by then")
    ctx.raises(lambda: sc.log.__setitem__(P, "not a log"), Exception, "only player logs are accepted")


def lookup(ctx, kind):
    a, b = ctx.timestamps("t", 3, 0, 20, kind=kind), ctx.timestamps("u", 2, 0, 20, kind=kind)
    ctx.assume(ctx.and_(b[0] > a[0], b[0] < a[2], b[1] < a[2]))
    x = ctx.reals("x", 3, -10, 10)
    lg = PlayerLogger()
    for t, v in zip(a, x):
        lg.states.add(t, v)
    for i, t in enumerate([a[0], b[0], b[1]]):
        lg.commands.add(t, f"c{i}"), lg.info.add(t, f"i{i}")
    for i, t in enumerate(b):
        lg.extra.add(t, f"e{i}")
    log = SimLog()
    log[P] = lg.as_sequence()
    t = ctx.real("at", 0, 20, kind=kind)
    ctx.assume(ctx.and_(a[0] <= t, t <= a[2]))
    e = log.at_interp(t)[P]
    k = 0 if ctx.cond(t < b[0]) else 1 if ctx.cond(t < b[1]) else 2
    ctx.true(e.commands == f"c{k}" and e.info == f"i{k}", "latest command and computing time")
    ctx.true(e.extra == (f"e{k - 1}" if k else None), "latest extra, none before the first")
    i = 0 if ctx.cond(t <= a[1]) else 1
    F = lambda v: v if kind == "f" else asf(v)
    ctx.eq((e.state - x[i]) * (F(a[i + 1]) - F(a[i])), (x[i + 1] - x[i]) * (F(t) - F(a[i])), "interpolated state", tol=1e-5)


HARNESSES = [H(loop, name="loop", n=5, budget=40, bounds="up to 5 steps"), H(loop, name="loop_late_start", n=3, late=True, budget=40, bounds="starting time in [0,5]"),
             H(loop, name="loop_deep", n=8, budget=200, tier="thorough", bounds="up to 8 steps"),
             H(missions, name="missions_both", names=[P, Q], with_mission=[P, Q], n=3, budget=40), H(missions, name="missions_one", names=[P, Q], with_mission=[Q], n=3, budget=40),
             H(missions, name="missions_none", names=[P, Q], with_mission=[], n=3, budget=40),
             H(missions, name="missions_three", names=[P, Q, R], with_mission=[R, P], n=3, budget=200, tier="thorough"),
             H(init), H(again, name="again_same", n=3, fresh=False), H(again, name="again_other", n=3, fresh=True), H(interleaved, n=2), H(log_at, n=3), H(lookup, name="lookup_f", kind="f"), H(lookup, name="lookup_d", kind="d")]

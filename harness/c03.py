"""Interpolated reads of sequences, player logs and simulation logs."""
from dg_commons.seq.sequence import DgSampledSequence
from dg_commons.planning.trajectory import Trajectory
from dg_commons.sim.models.vehicle import VehicleState, VehicleCommands
from dg_commons.sim.models.pedestrian import PedestrianState
from dg_commons.sim.simulator_structures import PlayerLog, SimLog, LogEntry
from symx.engine import H

META = {
    "id": "C03",
    "title": "Interpolated reads are exact at samples, linear between, held at the ends",
    "statement": "Interpolating a sequence at a time returns the stored value at a sample, the linear blend of the two neighbouring values in between (for numbers and for vehicle and pedestrian states, field by field), and the first or last value outside the sampled range. Interpolating a player's log interpolates its state, but returns for commands, computation time and extra information the entry at or last before the time (nothing for extra information when there is none yet); interpolating a simulation log does this for every player and its reported first and last times bound all players' states.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic timestamps, values and query times for sequences of 1 to 4 numeric samples and 2 state samples; logs of 1 and 2 players with 2 states, commands and infos each and 0 to 2 extras"},
    "why_tests_cant": "tests interpolate one evenly spaced sequence whose values equal its timestamps, so swapped weights, wrong neighbours and uneven spacing go unseen",
    "anchors": {"files": ["src/dg_commons/seq/sequence.py", "src/dg_commons/sim/simulator_structures.py"],
                "mechanism": [{"name": "linear interpolation", "where": "src/dg_commons/seq/sequence.py DgSampledSequence.at_interp"},
                              {"name": "log interpolation", "where": "src/dg_commons/sim/simulator_structures.py PlayerLog.at_interp, SimLog"}]},
}
ASSUMPTIONS = ["times in [0, 100], consecutive samples at least 1/1000 apart, values in [-10, 10]"]


def _blend(ctx, ts, vs, t, r, name):
    """r is what interpolation at t must give (t forked on its position)"""
    n = len(ts)
    if t <= ts[0]:
        return ctx.eq(r, vs[0], name + ": held before the start")
    if t >= ts[n - 1]:
        return ctx.eq(r, vs[n - 1], name + ": held after the end")
    for i in range(n - 1):
        if t <= ts[i + 1]:
            T, a, b = ctx_f(t), ctx_f(ts[i]), ctx_f(ts[i + 1])
            return ctx.eq((r - vs[i]) * (b - a), (T - a) * (vs[i + 1] - vs[i]), name + ": linear between samples", 1e-7)


def ctx_f(x):
    from symx.core import is_sym, mk, zr

    return mk(zr(x), "f") if is_sym(x) else float(x)


def numbers(ctx, n, k, kq):
    ts = ctx.timestamps("t", n, 0, 100, kind=k, min_gap=None)
    for a, b in zip(ts, ts[1:]):
        ctx.assume(ctx_f(b) - ctx_f(a) >= 0.001)
    vs = ctx.reals("v", n, -10, 10)
    s = DgSampledSequence[float](ts, vs)
    t = ctx.real("q", -20, 120, kind=kq)
    r = s.at_interp(t)
    _blend(ctx, ts, vs, t, r, "value")
    lo, hi = vs[0], vs[0]
    for v in vs[1:]:
        lo, hi = ctx.ite(v < lo, v, lo), ctx.ite(v > hi, v, hi)
    ctx.le(lo, r, "not below all values")
    ctx.le(r, hi, "not above all values")


def _state(ctx, cls, fields, i):
    return cls(**{f: ctx.real(f"{f}{i}", -10, 10) for f in fields})


VF = ("x", "y", "psi", "vx", "delta")
PF = ("x", "y", "psi", "vx", "vy", "dpsi")


def states(ctx, cls, fields, seq=DgSampledSequence):
    ts = ctx.timestamps("t", 2, 0, 100)
    ctx.assume(ctx_f(ts[1]) - ctx_f(ts[0]) >= 0.001)
    sts = [_state(ctx, cls, fields, i) for i in range(2)]
    s = seq(ts, sts)
    t = ctx.real("q", -20, 120, kind="d")
    r = s.at_interp(t)
    ctx.true(type(r) is cls, "same kind of state")
    for f in fields:
        _blend(ctx, ts, [getattr(x, f) for x in sts], t, getattr(r, f), f)


def _prev(ctx, ts, vs, t, r, name):
    ctx.true(r in vs, name + ": a stored value")
    i = vs.index(r)
    ctx.true(ts[i] <= t, name + ": not later than the time")
    if i + 1 < len(ts):
        ctx.true(t < ts[i + 1], name + ": the latest")


def _plog(ctx, p, nextra):
    ts = ctx.timestamps(p + "s", 2, 0, 100)
    tc = ctx.timestamps(p + "c", 2, 0, 100)
    ti = ctx.timestamps(p + "i", 2, 0, 100)
    te = ctx.timestamps(p + "e", nextra, 0, 100)
    for a, b in (ts,):
        ctx.assume(ctx_f(b) - ctx_f(a) >= 0.001)
    sts = [ctx.real(f"{p}x{i}", -10, 10) for i in range(2)]
    vals = dict(c=[p + "c0", p + "c1"], i=[p + "i0", p + "i1"], e=[f"{p}e{i}" for i in range(nextra)])
    log = PlayerLog(states=DgSampledSequence[float](ts, sts), commands=DgSampledSequence[str](tc, vals["c"]),
                    extra=DgSampledSequence[str](te, vals["e"]), info=DgSampledSequence[str](ti, vals["i"]))
    return log, ts, sts, tc, ti, te, vals


def _entry(ctx, L, t, e, p):
    log, ts, sts, tc, ti, te, vals = L
    _blend(ctx, ts, sts, t, e.state, p + "state")
    _prev(ctx, tc, vals["c"], t, e.commands, p + "commands")
    _prev(ctx, ti, vals["i"], t, e.info, p + "info")
    if te and te[0] <= t:
        _prev(ctx, te, vals["e"], t, e.extra, p + "extra")
    else:
        ctx.true(e.extra is None, p + "no extra yet")


def playerlog(ctx, nextra):
    L = _plog(ctx, "a", nextra)
    t = ctx.real("q", 0, 120, kind="d")
    ctx.assume(L[3][0] <= t)
    ctx.assume(L[4][0] <= t)
    _entry(ctx, L, t, L[0].at_interp(t), "")


def simlog(ctx):
    LA, LB = _plog(ctx, "a", 0), _plog(ctx, "b", 0)
    log = SimLog()
    log["A"], log["B"] = LA[0], LB[0]
    t = ctx.real("q", 0, 120, kind="d")
    for L in (LA, LB):
        ctx.assume(L[3][1] <= t), ctx.assume(L[4][1] <= t)
    e = log.at_interp(t)
    ctx.true(set(e) == {"A", "B"}, "every player")
    _entry(ctx, LA, t, e["A"], "A.")
    _entry(ctx, LB, t, e["B"], "B.")


def simlog_span(ctx):
    log = SimLog()
    T = {}
    for p in "abc":
        T[p] = ctx.timestamps(p, 2, 0, 100)
        s = DgSampledSequence[str](T[p], ["x", "y"])
        log[p] = PlayerLog(s, s, s, s)
    a, b = log.get_init_time(), log.get_last_time()
    ctx.true(ctx.and_(*[a <= T[p][0] for p in T]), "init is a lower bound")
    ctx.true(ctx.or_(*[a == T[p][0] for p in T]), "init is attained")
    ctx.true(ctx.and_(*[b >= T[p][1] for p in T]), "last is an upper bound")
    ctx.true(ctx.or_(*[b == T[p][1] for p in T]), "last is attained")
    ctx.raises(lambda: log.__setitem__("d", "not a log"), Exception, "only player logs can be stored")


HARNESSES = (
    [H(numbers, name=f"numbers_{n}{k}{q}", n=n, k=k, kq=q, bounds=f"{n} samples, {k}/{q}") for n, k, q in
     ((1, "d", "d"), (2, "d", "d"), (3, "d", "d"), (4, "d", "d"), (2, "f", "f"), (3, "f", "d"), (3, "d", "f"))]
    + [H(states, name="vehicle_state", cls=VehicleState, fields=VF, bounds="2 samples"), H(states, name="pedestrian_state", cls=PedestrianState, fields=PF, bounds="2 samples"),
       H(states, name="trajectory", cls=VehicleState, fields=VF, seq=Trajectory, bounds="2 samples")]
    + [H(playerlog, name=f"playerlog_{n}", nextra=n, bounds=f"2 states, 2 commands, 2 infos, {n} extras") for n in (0, 1, 2)]
    + [H(simlog, bounds="2 players"), H(simlog_span, bounds="3 players")]
    + [H(numbers, name="numbers_6", n=6, k="d", kq="d", tier="thorough", bounds="6 samples")]
)

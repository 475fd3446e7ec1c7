"""Trajectories: joining, upsampling, command plans, rigid motion, trajectory graphs."""
from dataclasses import replace

from dg_commons.geo import SE2Transform
from dg_commons.planning.trajectory import Trajectory, TrajectoryGraph, commands_plan_from_trajectory
from dg_commons.sim.models.vehicle import VehicleState
from harness.util import F, cos, same_angle, sin, state
from symx.engine import H

META = {
    "id": "C06",
    "title": "Trajectories join, upsample, transform and yield plans without distortion",
    "statement": "Joining two trajectories yields all samples of the first followed by all but the first of the second (an empty one is neutral), and is refused when, at the joint, speed or steering (checked join) or time (unchecked join) differ by more than the tolerance; upsampling keeps every sample and adds, in every gap, the requested number of equally spaced, linearly interpolated states. The command plan of a trajectory carries at every sample but the last exactly the acceleration and steering rate that take speed and steering angle to the next sample, and a rigid motion moves positions and headings by that motion and leaves times, speeds and steering untouched. In a trajectory graph an edge needs an existing start node, a new end node is one generation after its start, an existing one is kept as it is, and the trajectory, transition and commands retrieved between two connected nodes are those stored along the path, in order.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic times, states and transforms for trajectories of up to 3 samples joined pairwise, upsampling by 0 to 2 points, graphs of 3 nodes on a path and 4 nodes with two branches"},
    "why_tests_cant": "the tests build one trajectory and never join, upsample, transform or convert it with values checked; distortion depends on uneven times and on headings",
    "anchors": {"files": ["src/dg_commons/planning/trajectory.py"],
                "mechanism": [{"name": "trajectory algebra", "where": "src/dg_commons/planning/trajectory.py Trajectory"},
                              {"name": "command plans", "where": "src/dg_commons/planning/trajectory.py commands_plan_from_trajectory"},
                              {"name": "trajectory graph", "where": "src/dg_commons/planning/trajectory.py TrajectoryGraph"}]},
}
ASSUMPTIONS = ["times in [0, 100] at least 1/100 apart, state entries in [-10, 10], headings in (-pi, pi)"]
VF = ("x", "y", "psi", "vx", "delta")


def _traj(ctx, p, n, kind="d", gap=0.01):
    ts = ctx.timestamps(p + "t", n, 0, 100, kind=kind)
    for a, b in zip(ts, ts[1:]):
        ctx.assume(F(b) - F(a) >= gap)
    sts = [state(ctx, VehicleState, VF, f"{p}{i}") for i in range(n)]
    return ts, sts, Trajectory(ts, sts)


def _same_state(ctx, a, b, name):
    for f in VF:
        ctx.eq(getattr(a, f), getattr(b, f), f"{name}.{f}")


def _same(ctx, tr, ts, sts, name):
    ctx.true(len(tr) == len(ts), name + ": number of samples")
    ctx.true(type(tr) is Trajectory, name + ": a trajectory")
    for i, (t, s) in enumerate(tr):
        ctx.eq(t, ts[i], f"{name}: time {i}")
        _same_state(ctx, s, sts[i], f"{name}: state {i}")


def merge(ctx, na, nb):
    ta, sa, A = _traj(ctx, "a", na)
    tb, sb, B = _traj(ctx, "b", nb)
    if na and nb:
        dv, dd = sb[0].vx - sa[-1].vx, sb[0].delta - sa[-1].delta
        ok = ctx.and_(abs(dv) < 1e-3, abs(dd) < 1e-3)
    else:
        ok = True
    inc = ctx.cond(ta[-1] < tb[1]) if na and nb > 1 else True
    try:
        M = A.merge(B)
    except Exception:
        ctx.true(ctx.not_(ctx.and_(ok, inc)), "refused only when the joint does not match")
        return
    ctx.true(ok, "joined only when speed and steering match")
    ctx.true(inc, "joined only in time order")
    _same(ctx, M, ta + (tb[1:] if na else tb), sa + (sb[1:] if na else sb), "merged")
    _same(ctx, A, ta, sa, "first"), _same(ctx, B, tb, sb, "second")


def merge_unsafe(ctx, na, nb):
    ta, sa, A = _traj(ctx, "a", na)
    tb, sb, B = _traj(ctx, "b", nb)
    d = abs(F(ta[-1]) - F(tb[0])) if na and nb else 0.0
    try:
        M = A.merge_unsafe(B)
    except Exception:
        if na and nb:
            ctx.ge(d, 1e-3, "refused only when the times do not match")
        else:
            ctx.true(False, "an empty trajectory is neutral")
        return
    if na and nb:
        ctx.le(d, 1e-3, "joined only when the times match")
    _same(ctx, M, ta + (tb[1:] if na else tb), sa + (sb[1:] if na else sb), "merged")


def upsample(ctx, n, m, kind):
    ts, sts, T = _traj(ctx, "a", n, kind)
    U = T.upsample(m)
    ctx.true(len(U) == ((n - 1) * (m + 1) + 1 if n else 0), "number of samples")
    got = list(U)
    for i in range(n):
        t, s = got[i * (m + 1)]
        ctx.eq(t, ts[i], "original time kept")
        _same_state(ctx, s, sts[i], "original state kept")
        if i + 1 < n:
            for j in range(1, m + 1):
                t, s = got[i * (m + 1) + j]
                ctx.eq(F(t) * (m + 1), F(ts[i]) * (m + 1 - j) + F(ts[i + 1]) * j, "equally spaced")
                for f in VF:
                    a, b = getattr(sts[i], f), getattr(sts[i + 1], f)
                    ctx.eq(getattr(s, f) * (m + 1), a * (m + 1 - j) + b * j, "linear in between " + f)


def plan(ctx, n, kind):
    ts, sts, T = _traj(ctx, "a", n, kind)
    P = commands_plan_from_trajectory(T)
    ctx.true(len(P) == n - 1, "one command per gap")
    for i, (t, u) in enumerate(P):
        ctx.eq(F(t), F(ts[i]), "issued at the sample")
        dt = F(ts[i + 1]) - F(ts[i])
        ctx.eq(sts[i].vx + u.acc * dt, sts[i + 1].vx, "acceleration reaches the next speed")
        ctx.eq(sts[i].delta + u.ddelta * dt, sts[i + 1].delta, "steering rate reaches the next angle")


def rigid(ctx):
    ts, sts, T = _traj(ctx, "a", 1)
    tx, ty, th = ctx.real("tx", -10, 10), ctx.real("ty", -10, 10), ctx.angle("th", -3.1, 3.1)
    R = T.apply_SE2transform(SE2Transform([tx, ty], th))
    ctx.true(len(R) == len(T), "number of samples")
    for (t, s), t0, s0 in zip(R, ts, sts):
        ctx.eq(t, t0, "time")
        ctx.eq(s.x, tx + cos(th) * s0.x - sin(th) * s0.y, "x")
        ctx.eq(s.y, ty + sin(th) * s0.x + cos(th) * s0.y, "y")
        same_angle(ctx, s.psi, th + s0.psi, "heading")
        ctx.eq(s.vx, s0.vx, "speed"), ctx.eq(s.delta, s0.delta, "steering")
    _same(ctx, T, ts, sts, "source")
    p = T.as_path()
    for q_, s0 in zip(p, sts):
        ctx.eq(q_.p[0], s0.x, "path x"), ctx.eq(q_.p[1], s0.y, "path y"), ctx.eq(q_.theta, s0.psi, "path heading")


def _st(i):
    return VehicleState(x=1.0 * i, y=-2.0 * i, psi=0.1 * i, vx=3.0 + i, delta=0.01 * i)


def graph(ctx, branch):
    G = TrajectoryGraph()
    ts = ctx.timestamps("t", 3, 0, 100)
    mid = ctx.timestamps("m", 2, 0, 100)
    ctx.assume(ts[0] < mid[0]), ctx.assume(mid[0] < ts[1]), ctx.assume(ts[1] < mid[1]), ctx.assume(mid[1] < ts[2])
    n = [_st(i) for i in range(4)]
    e01 = Trajectory([ts[0], ts[1]], [n[0], n[1]])
    e12 = Trajectory([ts[1], ts[2]], [n[1], n[2]])
    tr01 = Trajectory([ts[0], mid[0], ts[1]], [n[0], _st(7), n[1]])
    tr12 = Trajectory([ts[1], mid[1], ts[2]], [n[1], _st(8), n[2]])
    ctx.raises(lambda: G.add_edge(e01, tr01), ValueError, "an edge from an unknown node is refused")
    G.add_node((ts[0], n[0]), gen=0)
    G.add_edge(e01, tr01, commands="c01")
    G.add_edge(e12, tr12, commands="c12")
    if branch:
        e02 = Trajectory([ts[0], ts[2]], [n[0], n[3]])
        G.add_edge(e02, e02, commands="c02")
        # a second way into an existing node
        G.add_edge(Trajectory([ts[0], ts[2]], [n[0], n[2]]), e02, commands="again")
    g = {k: G.nodes[k]["gen"] for k in G.nodes}
    ctx.true(len(g) == (4 if branch else 3), "number of nodes")
    ctx.true(g[(ts[0], n[0])] == 0 and g[(ts[1], n[1])] == 1 and g[(ts[2], n[2])] == 2, "generations")
    if branch:
        ctx.true(g[(ts[2], n[3])] == 1, "generation on the other branch")
        return
    src, dst = (ts[0], n[0]), (ts[2], n[2])
    _same(ctx, G.get_trajectory(src, dst), ts, n[:3], "node states")
    _same(ctx, G.get_transition(src, dst), [ts[0], mid[0], ts[1], mid[1], ts[2]], [n[0], _st(7), n[1], _st(8), n[2]], "edge transitions")
    c = G.commands_on_trajectory(Trajectory(ts, n[:3]))
    ctx.true(list(c.values) == ["c01", "c12"], "commands along the path")
    ctx.seq_eq(c.timestamps, ts[:2], "command times")
    ctx.raises(lambda: G.get_trajectory(dst, src), ValueError, "no path backwards")
    ctx.true(len(G.get_all_trajectories()) == 1 and len(G.get_all_transitions()) == 1, "one root-to-leaf trajectory")


HARNESSES = (
    [H(f, name=f"{f.__name__}_{a}_{b}", na=a, nb=b, bounds=f"{a}+{b} samples") for f in (merge, merge_unsafe) for a, b in ((0, 2), (2, 0), (0, 0), (1, 2), (2, 2), (2, 3))]
    + [H(upsample, name=f"upsample_{n}_{m}{k}", n=n, m=m, kind=k, bounds=f"{n} samples, {m} points per gap") for n, m, k in ((0, 1, "d"), (1, 2, "d"), (2, 0, "d"), (2, 1, "d"), (2, 2, "d"), (3, 1, "d"), (3, 1, "f"), (2, 3, "f"))]
    + [H(plan, name=f"plan_{n}{k}", n=n, kind=k, bounds=f"{n} samples") for n, k in ((2, "d"), (3, "d"), (3, "f"))]
    + [H(rigid, bounds="1 sample, any transform"), H(graph, name="graph_path", branch=False, bounds="3 nodes", budget=60), H(graph, name="graph_branch", branch=True, bounds="4 nodes", budget=60)]
)

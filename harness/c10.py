"""One integration step of every model."""
from types import SimpleNamespace

import numpy as np
import scipy.integrate

from harness.models import COMMANDS, MODELS, NO_GRIP, RNG, STATES, build, scmds, sstate
from harness.util import F, cos, sin
from symx.engine import H
from symx.shims import replaced

META = {
    "id": "C10",
    "title": "A simulation step integrates the motion law over exactly the step",
    "statement": "Advancing a model by a time step integrates its own motion law from its current state, with the given command held constant, over exactly that step, and the state afterwards is the integrator's final state; the state object held before the step is not altered. After a collision the command no longer has any effect (cars, which stay drivable, and dynamic obstacles excepted). When the integration fails, the step raises an error and the state is kept.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic states, commands, step lengths in [0.01, 10] and intermediate integrator states, for every model, before and after a collision; the integrator is a stand-in that evaluates the motion law handed to it at an arbitrary state and returns an arbitrary result of 3 samples"},
    "why_tests_cant": "the tests run whole simulations and look at no intermediate state; a step with a stale command, a wrong length or a dropped quantity still moves the vehicles",
    "anchors": {"files": ["src/dg_commons/sim/models/vehicle.py", "src/dg_commons/sim/models/pedestrian.py", "src/dg_commons/sim/models/diff_drive.py", "src/dg_commons/sim/models/spacecraft.py", "src/dg_commons/sim/models/rocket.py", "src/dg_commons/sim/models/spaceship.py", "src/dg_commons/sim/models/obstacles_dyn.py"],
                "mechanism": [{"name": "integration step", "where": "src/dg_commons/sim/models/*.py update"}]},
}
ASSUMPTIONS = ["states in [-10, 10], commands in [0.01, 0.05] (well inside the limits) or, for the stale-command claims, in [-20, 20]",
               "scipy's solve_ivp is replaced by a stand-in: what it does with a correct motion law is scipy's own guarantee"]
KEEPS = ("car", "dyncar", "dynobs")


class Integrator:
    """Stand-in for solve_ivp: probes the right hand side at an arbitrary state and returns arbitrary samples."""

    def __init__(self, ctx, n, names, success=True):
        self.ctx, self.n, self.names, self.success, self.calls = ctx, n, names, success, 0

    def __call__(self, fun, t_span, y0, *a, **kw):
        ctx, n = self.ctx, self.n
        self.calls += 1
        self.t_span, self.y0 = t_span, [y0[i] for i in range(len(y0))]
        y = np.array(list(y0), dtype=object if any(hasattr(v, "e") for v in y0) else float)
        self.probe = [ctx.real("probe_" + f, *RNG.get(f, (-10, 10))) for f in self.names]
        y = np.array(self.probe + self.y0[n:])
        self.t = ctx.real("probe_t", 0, 10)
        if "vx" in self.names and "delta" in self.names and "vy" in self.names:
            i = {f: k for k, f in enumerate(self.names)}
            ctx.assume(self.probe[i["vx"]] >= 0.1)
        self.rhs = fun(self.t, y)
        self.end = [ctx.real("end_" + f, *RNG.get(f, (-10, 10))) for f in self.names]
        cols = [self.y0, list(y), self.end + self.y0[n:]]
        return SimpleNamespace(success=self.success, status=0 if self.success else -1, message="", t=np.array([0.0, self.t, F(t_span[1])]),
                               y=np.array([[c[k] for c in cols] for k in range(len(y0))]))


def _order(model):
    cls, fields = STATES[MODELS[model][0]]
    return sorted(fields, key=lambda f: cls.idx[f])


def step(ctx, model, collided):
    names = _order(model)
    dyn = model in ("dyncar", "dynbicycle")
    x = sstate(ctx, model)
    m = build(ctx, model, x)
    if dyn:
        m.pacejka_front = m.pacejka_rear = NO_GRIP
    u = scmds(ctx, model, lo=0.01, hi=0.05)
    dt = ctx.real("dt", 0.01, 10, kind="d")
    m.has_collided = collided
    before = {f: getattr(x, f) for f in names}
    integ = Integrator(ctx, len(names), names)
    with replaced(scipy.integrate.solve_ivp, integ):
        if dyn:
            _drivable(ctx, m, integ)
        m.update(u, dt)
    ctx.true(integ.calls == 1, "integrated once")
    ctx.eq(F(integ.t_span[1]) - F(integ.t_span[0]), F(dt), "over exactly the step")
    for k, f in enumerate(names):
        ctx.eq(integ.y0[k], before[f], f"starts from the current {f}")
    # motion law, evaluated by the model itself in its state before the step
    end = m._state
    ctx.true(end is not x, "a new state object")
    m._state = x
    eff = u
    if collided and model not in KEEPS:
        eff = u * 0.0
    cls = STATES[MODELS[model][0]][0]
    want = m.dynamics(cls(**dict(zip(names, integ.probe))), eff)
    for k, f in enumerate(names):
        ctx.eq(integ.rhs[k], getattr(want, f), f"integrates the motion law ({f})")
    for k in range(len(names), len(integ.y0)):
        ctx.eq(integ.rhs[k], 0.0, "command held constant")
    m._state = end
    got = m.get_state()
    ctx.true(got.__class__ is cls, "kind of state kept")
    for k, f in enumerate(names):
        ctx.eq(getattr(got, f), integ.end[k], f"final {f}")
        ctx.eq(getattr(x, f), before[f], f"state before the step not altered ({f})")


def _drivable(ctx, m, integ):
    """keep the front wheel rolling forward at the probed state"""
    orig = m.dynamics

    def dynamics(x0, u):
        ctx.assume(cos(x0.delta) * x0.vx + sin(x0.delta) * (x0.vy + m.vg.lf * x0.dpsi) >= 0.01)
        return orig(x0, u)

    m.dynamics = dynamics


def fails(ctx, model):
    names = _order(model)
    x = sstate(ctx, model)
    m = build(ctx, model, x)
    if model in ("dyncar", "dynbicycle"):
        m.pacejka_front = m.pacejka_rear = NO_GRIP
    u, dt = scmds(ctx, model, lo=0.01, hi=0.05), ctx.real("dt", 0.01, 10, kind="d")
    before = {f: getattr(x, f) for f in names}
    with replaced(scipy.integrate.solve_ivp, Integrator(ctx, len(names), names, success=False)):
        if model in ("dyncar", "dynbicycle"):
            _drivable(ctx, m, None)
        ctx.raises(lambda: m.update(u, dt), Exception, "a failed integration raises")
    for f in names:
        ctx.eq(getattr(m._state, f), before[f], f"{f} kept after a failed integration")


HARNESSES = [H(lambda ctx, m=m, c=c: step(ctx, m, c), name=f"step_{m}_{'collided' if c else 'free'}", budget=60, stubs="scipy.integrate.solve_ivp") for m in MODELS for c in (False, True)] + \
    [H(lambda ctx, m=m: fails(ctx, m), name="fails_" + m, budget=30, stubs="scipy.integrate.solve_ivp") for m in MODELS]

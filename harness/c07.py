"""State and command vectors of every model."""
import numpy as np

from harness.models import COMMANDS, STATES
from symx.engine import H

META = {
    "id": "C07",
    "title": "State and command vectors convert to arrays and combine without mixing",
    "statement": "For every simulated model, a state or command vector written to an array and read back is unchanged, with every quantity at the position its published index announces; arrays of another length are refused. Sum, difference and scaling by a number (from either side) act on every quantity separately and obey the vector-space laws, do not alter their operands, and combining vectors of different kinds is refused; the planar part of a dynamic vehicle state is what its conversion to the kinematic state yields.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic entries in [-100, 100] and scalars in [-10, 10], for all 8 state and 7 command vectors"},
    "why_tests_cant": "the tests build a handful of states and never combine or convert them; one swapped or forgotten entry leaves them green",
    "anchors": {"files": ["src/dg_commons/sim/models/vehicle.py", "src/dg_commons/sim/models/vehicle_dynamic.py", "src/dg_commons/sim/models/pedestrian.py", "src/dg_commons/sim/models/diff_drive.py", "src/dg_commons/sim/models/spacecraft.py", "src/dg_commons/sim/models/rocket.py", "src/dg_commons/sim/models/spaceship.py", "src/dg_commons/sim/models/obstacles_dyn.py"],
                "mechanism": [{"name": "vector operators and array conversion", "where": "src/dg_commons/sim/models/*.py *State, *Commands"}]},
}
ASSUMPTIONS = ["entries in [-100, 100], scalars in [-10, 10], divisors at least 0.1 in size"]
ALL = {**STATES, **COMMANDS}


def _v(ctx, name, tag):
    cls, fields = ALL[name]
    return cls(**{f: ctx.real(f + tag, -100, 100) for f in fields})


def _g(v, fields):
    return {f: getattr(v, f) for f in fields}


def arrays(ctx, name):
    cls, fields = ALL[name]
    v = _v(ctx, name, "a")
    arr = v.as_ndarray()
    n = cls.get_n_states() if name in STATES else cls.get_n_commands()
    ctx.true(n == len(fields) and arr.shape == (n,), "one array entry per quantity")
    ctx.true(sorted(cls.idx) == sorted(fields), "every quantity has an index")
    for f in fields:
        ctx.eq(arr[cls.idx[f]], getattr(v, f), f"{f} sits at its index")
    w = cls.from_array(arr)
    ctx.true(w.__class__ is cls, "kind kept")
    for f in fields:
        ctx.eq(getattr(w, f), getattr(v, f), f"{f} survives the round trip")
    b = np.array([ctx.real(f"z{i}", -100, 100) for i in range(n)])
    back = cls.from_array(b).as_ndarray()
    for i in range(n):
        ctx.eq(back[i], b[i], "an array survives the round trip")
    ctx.raises(lambda: cls.from_array(np.append(b, b[:1])), Exception, "a longer array is refused")
    ctx.raises(lambda: cls.from_array(b[:-1]), Exception, "a shorter array is refused")


def algebra(ctx, name):
    cls, fields = ALL[name]
    a, b = _v(ctx, name, "a"), _v(ctx, name, "b")
    k, d = ctx.real("k", -10, 10), ctx.real("d", -10, 10)
    ctx.assume(ctx.or_(d >= 0.1, d <= -0.1))
    a0, b0 = _g(a, fields), _g(b, fields)
    s, m, l, r, q = a + b, a - b, a * k, k * a, a / d
    for f in fields:
        ctx.eq(getattr(s, f), a0[f] + b0[f], f"sum {f}")
        ctx.eq(getattr(m, f), a0[f] - b0[f], f"difference {f}")
        ctx.eq(getattr(l, f), a0[f] * k, f"scaled {f}")
        ctx.eq(getattr(r, f), a0[f] * k, f"scaled from the left {f}")
        ctx.eq(getattr(q, f) * d, a0[f], f"quotient {f}")
        ctx.eq(getattr(a, f), a0[f], f"operand kept {f}")
        ctx.eq(getattr(b, f), b0[f], f"second operand kept {f}")
    for v in (s, m, l, r, q):
        ctx.true(v.__class__ is cls, "kind kept")
    if name == "VehicleCommands":
        ctx.true(l.lights == a.lights and s.lights == a.lights, "lights kept")


def mixed(ctx, name):
    a = _v(ctx, name, "a")
    for other in ALL:
        if other != name:
            b = _v(ctx, other, "_" + other)
            for op in (lambda: a + b, lambda: a - b, lambda: a + 1.0):
                try:
                    op()
                except Exception:
                    continue
                ctx.true(False, f"adding {other} to {name} is refused")
    ctx.true(True, "all other kinds refused")


def planar(ctx):
    a = _v(ctx, "VehicleStateDyn", "a")
    p = a.to_vehicle_state()
    ctx.true(p.__class__ is STATES["VehicleState"][0], "kinematic state")
    for f in STATES["VehicleState"][1]:
        ctx.eq(getattr(p, f), getattr(a, f), f)


HARNESSES = [H(lambda ctx, n=n: arrays(ctx, n), name="arrays_" + n, budget=20) for n in ALL] + \
    [H(lambda ctx, n=n: algebra(ctx, n), name="algebra_" + n, budget=20) for n in ALL] + \
    [H(lambda ctx, n=n: mixed(ctx, n), name="mixed_" + n, budget=20) for n in ALL] + [H(planar, budget=10)]

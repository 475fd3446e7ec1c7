"""Lookups in sampled sequences; plan-following agents."""
from dg_commons.seq.sequence import DgSampledSequence, UndefinedAtTime
from dg_commons.sim.agents.agent import NPAgent
from dg_commons.sim.simulator_structures import SimObservations
from symx.engine import H

META = {
    "id": "C02",
    "title": "Looking up a sampled sequence returns the sample at, or last before, a time",
    "statement": "Asking for the value at a time returns the stored value of exactly that timestamp and fails as undefined at every other time; asking for the value at or before a time returns the value of the latest timestamp not after it and fails as undefined only before the first timestamp, whatever numeric type the time has. An agent that replays a command plan issues, at every simulation time, the command of the latest plan timestamp not after that time, whatever it was asked before.",
    "quantifier": {"over": ["inputs", "histories"], "text": "all symbolic timestamps and query times (Decimal, float, int in every combination) for sequences of 1 to 4 samples (thorough: 6); agents asked at up to 3 arbitrary times in any order"},
    "why_tests_cant": "a test samples a few query times between a few fixed timestamps; off-by-one errors show only at ties, just before or after particular samples, or for particular numeric types",
    "anchors": {"files": ["src/dg_commons/seq/sequence.py", "src/dg_commons/sim/agents/agent.py"],
                "mechanism": [{"name": "exact and previous lookup", "where": "src/dg_commons/seq/sequence.py DgSampledSequence.at, at_or_previous"},
                              {"name": "plan replay", "where": "src/dg_commons/sim/agents/agent.py NPAgent.get_commands"}]},
}
ASSUMPTIONS = ["times in [-100, 100]"]


def _num(ctx, name, k):
    return ctx.int(name, -100, 100) if k == "i" else ctx.real(name, -100, 100, kind=k)


def _seq(ctx, n, k):
    ts = [_num(ctx, f"t{i}", k) for i in range(n)]
    for a, b in zip(ts, ts[1:]):
        ctx.assume(a < b)
    vs = [f"v{i}" for i in range(n)]
    return ts, vs, DgSampledSequence[str](ts, vs)


def at(ctx, n, k, kq):
    ts, vs, s = _seq(ctx, n, k)
    t = _num(ctx, "q", kq)
    try:
        r = s.at(t)
    except UndefinedAtTime:
        ctx.true(ctx.and_(*[t != x for x in ts]), "undefined only off the samples")
        return
    ctx.true(r in vs, "a stored value")
    ctx.true(t == ts[vs.index(r)], "the value of that timestamp")


def _check_prev(ctx, ts, vs, t, r, tag=""):
    ctx.true(r in vs, tag + "a stored value")
    i = vs.index(r)
    ctx.true(ts[i] <= t, tag + "sample not after the time")
    if i + 1 < len(ts):
        ctx.true(t < ts[i + 1], tag + "latest such sample")


def prev(ctx, n, k, kq):
    ts, vs, s = _seq(ctx, n, k)
    t = _num(ctx, "q", kq)
    try:
        r = s.at_or_previous(t)
    except UndefinedAtTime:
        ctx.true(t < ts[0], "undefined only before the first sample")
        return
    ctx.true(ts[0] <= t, "defined from the first sample on")
    _check_prev(ctx, ts, vs, t, r)


def agent(ctx, n, k, kq, m):
    ts, vs, s = _seq(ctx, n, k)
    a = NPAgent(s)
    for j in range(m):
        t = _num(ctx, f"q{j}", kq)
        try:
            r = a.get_commands(SimObservations(players={}, time=t))
        except UndefinedAtTime:
            ctx.true(t < ts[0], f"query {j}: undefined only before the plan starts")
            continue
        _check_prev(ctx, ts, vs, t, r, f"query {j}: ")


HARNESSES = (
    [H(at, name=f"at_{n}{k}{q}", n=n, k=k, kq=q, bounds=f"{n} samples, types {k}/{q}") for n in (1, 2, 3) for k in "dfi" for q in "dfi" if n == 3 or k == q]
    + [H(prev, name=f"prev_{n}{k}{q}", n=n, k=k, kq=q, bounds=f"{n} samples, types {k}/{q}") for n in (1, 2, 3, 4) for k in "dfi" for q in "dfi" if n == 3 or k == q]
    + [H(agent, name=f"agent_{k}{q}", n=3, k=k, kq=q, m=2, bounds="plan of 3 commands, 2 queries") for k, q in ("dd", "fd", "ff")]
    + [H(agent, name="agent_3q", n=2, k="d", kq="d", m=3, bounds="plan of 2 commands, 3 queries")]
    + [H(f, name=f"{f.__name__}_deep", n=6, k="d", kq="d", tier="thorough", bounds="6 samples") for f in (at, prev)]
)

"""Derived sequences: sub-sequences, shifts, value transforms."""
from dg_commons.seq.sequence import DgSampledSequence, iterate_with_dt
from symx.engine import H

META = {
    "id": "C04",
    "title": "Derived sequences keep exactly the right samples and leave the source alone",
    "statement": "A sub-sequence between two times (in order) holds exactly the samples whose timestamps lie between them, both ends included, and reversed ends are refused; shifting adds the same offset to every timestamp and changes no value; transforming values keeps each sample's timestamp with the transformed value and drops exactly those whose transform is nothing. Walking over consecutive samples yields each adjacent pair once with its true time difference, and none of these operations changes the original sequence.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic timestamps, interval ends (every position relative to the samples, including ties) and offsets for sequences of 0 to 4 samples, with or without a stated type of values; every keep/drop pattern of the transform on 3 samples"},
    "why_tests_cant": "interval ends that coincide with, straddle or fall outside samples form many cases; tests fix five timestamps and a few intervals",
    "anchors": {"files": ["src/dg_commons/seq/sequence.py"],
                "mechanism": [{"name": "derived sequences", "where": "src/dg_commons/seq/sequence.py DgSampledSequence.get_subsequence, shift_timestamps, transform_values, iterate_with_dt"}]},
}
ASSUMPTIONS = ["times in [-100, 100]"]


def _seq(ctx, n, k, of=str):
    ts = ctx.timestamps("t", n, -100, 100, kind=k)
    vs = [f"v{i}" for i in range(n)]
    return ts, vs, (DgSampledSequence(ts, vs) if of is None else DgSampledSequence[of](ts, vs))


def _same(ctx, s, ts, vs):
    ctx.seq_eq(s.timestamps, ts, "source timestamps", 1e-9)
    ctx.true(list(s.values) == vs, "source values")


def subsequence(ctx, n, k, kq, of=str):
    ts, vs, s = _seq(ctx, n, k, of)
    a, b = ctx.real("a", -120, 120, kind=kq), ctx.real("b", -120, 120, kind=kq)
    if a > b:
        ctx.raises(lambda: s.get_subsequence(a, b), Exception, "reversed interval refused")
        return
    r = s.get_subsequence(a, b)
    got = list(r)
    idx = [vs.index(v) for _, v in got]
    ctx.true(idx == sorted(set(idx)), "each sample at most once, in order")
    for (t, v), i in zip(got, idx):
        ctx.eq(t, ts[i], "timestamp kept", 1e-9)
    for i in range(n):
        inside = ctx.and_(a <= ts[i], ts[i] <= b)
        ctx.true(inside if i in idx else ctx.not_(inside), "exactly the samples in the closed interval")
    _same(ctx, s, ts, vs)


def shift(ctx, n, k, kd, of=str):
    ts, vs, s = _seq(ctx, n, k, of)
    dt = ctx.real("dt", -100, 100, kind=kd) if kd != "i" else ctx.int("dt", -100, 100)
    r = s.shift_timestamps(dt)
    ctx.seq_eq(r.timestamps, [t + dt for t in ts], "all timestamps shifted", 1e-9)
    ctx.true(list(r.values) == vs, "values unchanged")
    _same(ctx, s, ts, vs)


def transform(ctx, n, of=str):
    ts, vs, s = _seq(ctx, n, "d", of)
    keep = [ctx.choice(f"keep{i}", [0, 1, 2]) for i in range(n)]  # nothing, a falsy value, a value
    out = {v: (None, 0, v.upper())[k] for v, k in zip(vs, keep)}
    calls = []

    def f(v):
        calls.append(v)
        return out[v]

    r = s.transform_values(f)
    exp = [(t, out[v]) for t, v in zip(ts, vs) if out[v] is not None]
    ctx.true(len(r) == len(exp), "number of samples")
    for (t, v), (te, ve) in zip(r, exp):
        ctx.eq(t, te, "timestamp kept", 1e-9)
        ctx.true(v == ve and type(v) is type(ve), "transformed value")
    ctx.true(calls == vs, "each value transformed once, in order")
    _same(ctx, s, ts, vs)


def walk(ctx, n, k, of=str, sub=False):
    ts, vs, s = _seq(ctx, n, k, of)
    if sub:
        s, n = s.get_subsequence(ts[1], ts[2]), 2
        ts, vs = ts[1:3], vs[1:3]
    its = list(iterate_with_dt(s))
    ctx.true(len(its) == max(0, n - 1), "number of adjacent pairs")
    from harness.c03 import ctx_f

    for i, it in enumerate(its):
        ctx.eq(it.t0, ctx_f(ts[i]), "t0"), ctx.eq(it.t1, ctx_f(ts[i + 1]), "t1")
        ctx.eq(it.dt, ctx_f(ts[i + 1]) - ctx_f(ts[i]), "dt")
        ctx.true(it.v0 == vs[i] and it.v1 == vs[i + 1], "neighbouring values")


HARNESSES = (
    [H(subsequence, name=f"sub_{n}{k}{q}", n=n, k=k, kq=q, bounds=f"{n} samples, {k}/{q}") for n, k, q in
     ((0, "d", "d"), (1, "d", "d"), (2, "d", "d"), (3, "d", "d"), (4, "d", "d"), (3, "f", "f"), (3, "d", "f"), (3, "f", "d"))]
    + [H(shift, name=f"shift_{n}{k}{d}", n=n, k=k, kd=d, bounds=f"{n} samples") for n, k, d in ((0, "d", "d"), (1, "d", "d"), (3, "d", "d"), (3, "f", "f"), (3, "d", "i"), (3, "f", "i"))]
    + [H(transform, name=f"transform_{n}", n=n, bounds=f"{n} samples") for n in (0, 1, 3)]
    + [H(walk, name=f"walk_{n}{k}", n=n, k=k, bounds=f"{n} samples") for n, k in ((0, "d"), (1, "d"), (2, "d"), (4, "d"), (4, "f"))]
    + [H(f, name=f"{f.__name__}_untyped", n=2, of=None, bounds="2 samples, no type of values stated", **kw) for f, kw in ((subsequence, {"k": "d", "kq": "d"}), (shift, {"k": "d", "kd": "d"}), (transform, {}), (walk, {"k": "d"}))]
    + [H(walk, name="walk_of_subsequence", n=4, k="d", sub=True, bounds="a sub-sequence of 4 samples")]
    + [H(subsequence, name="sub_deep", n=6, k="d", kq="d", tier="thorough", bounds="6 samples")]
)

"""Calculus on sampled sequences."""
from dg_commons.seq.sequence import DgSampledSequence
from dg_commons.seq.seq_op import find_crossings, seq_accumulate, seq_differentiate, seq_integrate
from harness.c03 import ctx_f
from symx.engine import H

META = {
    "id": "C05",
    "title": "Integration, differentiation, accumulation and crossings follow the samples",
    "statement": "Integrating a sequence of at least two samples gives, at each later timestamp, the trapezoidal integral from the first sample; differentiating gives, at each midpoint of adjacent timestamps, the slope between the two samples; accumulating gives the running sum at the original timestamps; empty sequences cannot be integrated or differentiated. The crossing times of a threshold are, in increasing order, exactly one per pair of adjacent samples of which one lies below the threshold and the other does not, each being the point where the straight line between the two samples meets the threshold.",
    "quantifier": {"over": ["inputs"], "text": "all symbolic, unevenly spaced timestamps and values for sequences of 1 to 4 samples (thorough: 5), float and Decimal timestamps, with or without a stated type of values"},
    "why_tests_cant": "tests use unit-spaced integers, for which wrong spacing, wrong endpoints and left/right Riemann sums coincide or differ only for other data",
    "anchors": {"files": ["src/dg_commons/seq/seq_op.py", "src/dg_commons/seq/sequence.py"],
                "mechanism": [{"name": "sequence operators", "where": "src/dg_commons/seq/seq_op.py"}]},
}
ASSUMPTIONS = ["times in [0, 100], samples at least 1/100 apart, values in [-10, 10]"]


def _seq(ctx, n, k, of=float):
    ts = ctx.timestamps("t", n, 0, 100, kind=k)
    for a, b in zip(ts, ts[1:]):
        ctx.assume(ctx_f(b) - ctx_f(a) >= 0.01)
    vs = ctx.reals("v", n, -10, 10)
    return [ctx_f(t) for t in ts], vs, (DgSampledSequence(ts, vs) if of is None else DgSampledSequence[of](ts, vs)), ts


def integrate(ctx, n, k, of=float):
    T, vs, s, _ = _seq(ctx, n, k, of)
    r = seq_integrate(s)
    ctx.true(len(r) == n - 1, "one value per later sample")
    tot = 0
    for i in range(n - 1):
        tot = tot + (vs[i] + vs[i + 1]) * (T[i + 1] - T[i]) / 2
        ctx.eq(r.timestamps[i], T[i + 1], "at the later timestamps")
        ctx.eq(r.values[i], tot, "trapezoidal integral", 1e-5)
    ctx.seq_eq(s.values, vs, "source")


def differentiate(ctx, n, k, of=float):
    T, vs, s, _ = _seq(ctx, n, k, of)
    r = seq_differentiate(s)
    ctx.true(len(r) == n - 1, "one value per adjacent pair")
    for i in range(n - 1):
        ctx.eq(r.timestamps[i] * 2, T[i] + T[i + 1], "at the midpoints")
        ctx.eq(r.values[i] * (T[i + 1] - T[i]), vs[i + 1] - vs[i], "slope", 1e-7)


def acc(ctx, n, k, of=float):
    T, vs, s, ts = _seq(ctx, n, k, of)
    r = seq_accumulate(s)
    ctx.seq_eq(r.timestamps, ts, "original timestamps")
    tot = 0
    ctx.true(len(r) == n, "length")
    for i in range(n):
        tot = tot + vs[i]
        ctx.eq(r.values[i], tot, "running sum")


def empty(ctx):
    e = DgSampledSequence[float]([], [])
    ctx.raises(lambda: seq_integrate(e), Exception, "integrating nothing is refused")
    ctx.raises(lambda: seq_differentiate(e), Exception, "differentiating nothing is refused")


def crossings(ctx, n, k="f"):
    T, vs, s, _ = _seq(ctx, n, k)
    th = ctx.real("th", -10, 10)
    r = find_crossings(s, th)
    r = [ctx_f(t) for t in r]
    j = 0
    for i in range(n - 1):
        a, b = vs[i] < th, vs[i + 1] < th
        if bool(a) != bool(b):
            ctx.true(j < len(r), "every crossing is reported")
            ctx.eq((r[j] - T[i]) * (vs[i + 1] - vs[i]), (th - vs[i]) * (T[i + 1] - T[i]), "on the line between the samples", 1e-6)
            ctx.le(T[i], r[j], "not before the pair"), ctx.le(r[j], T[i + 1], "not after the pair")
            j += 1
    ctx.true(j == len(r), "nothing else is reported")


HARNESSES = (
    [H(f, name=f"{f.__name__}_{n}{k}", n=n, k=k, bounds=f"{n} samples, {k}") for f in (integrate, differentiate, acc) for n, k in ((2, "f"), (3, "d"), (3, "f"), (4, "d"))]
    + [H(f, name=f"{f.__name__}_untyped", n=3, k="d", of=None, bounds="3 samples, no type of values stated") for f in (integrate, differentiate, acc)]
    + [H(empty)] + [H(acc, name="acc_1", n=1, k="d", bounds="1 sample"), H(differentiate, name="diff_1", n=1, k="d", bounds="1 sample")]
    + [H(crossings, name=f"crossings_{n}", n=n, bounds=f"{n} samples", budget=40) for n in (2, 3, 4)]
    + [H(crossings, name=f"crossings_{n}d", n=n, k="d", bounds=f"{n} samples, Decimal", budget=40) for n in (2, 3)]
    + [H(f, name=f"{f.__name__}_5d", n=5, k="d", tier="thorough", bounds="5 samples") for f in (integrate, differentiate, acc)]
    + [H(crossings, name="crossings_5", n=5, tier="thorough", bounds="5 samples", budget=60)]
)

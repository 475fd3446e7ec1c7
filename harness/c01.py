"""Sampled sequences: construction, immutability, incremental builder."""
import dataclasses
from collections import UserList, deque
from decimal import Decimal

import numpy as np

import dg_commons
from dg_commons.seq.sequence import DgSampledSequence, DgSampledSequenceBuilder
from dg_commons.planning.trajectory import Trajectory
from symx.engine import H

META = {
    "id": "C01",
    "title": "Sampled sequences hold exactly valid data, however they are built",
    "statement": "Building a sampled sequence succeeds if and only if there are as many timestamps as values, the timestamps are strictly increasing real numbers, and Decimal timestamps are not mixed with float or int ones; the sequence then holds exactly the given pairs, cannot be changed through its fields or through the lists it was built from, and equals (with equal hash) any sequence with the same content. The incremental builder accepts a sample if and only if its timestamp is strictly later than the last accepted one, a rejected sample leaves the builder unchanged, and the sequence it produces holds exactly the accepted samples in order and is not affected by later additions.",
    "quantifier": {"over": ["inputs", "histories"], "text": "all timestamp values (symbolic, every ordering and tie) for sequences of up to 4 (thorough: 6) samples, every mix of Decimal/float/int timestamps up to length 3, every accept/reject history of up to 4 (thorough: 5) builder additions"},
    "why_tests_cant": "tests build a handful of sequences with fixed timestamps; ties, single out-of-order elements at each position, the mixes of numeric types and the interleavings of rejected and accepted additions are never enumerated",
    "anchors": {"files": ["src/dg_commons/seq/sequence.py"],
                "mechanism": [{"name": "constructor validation", "where": "src/dg_commons/seq/sequence.py DgSampledSequence.__post_init__"},
                              {"name": "incremental builder", "where": "src/dg_commons/seq/sequence.py DgSampledSequenceBuilder"}]},
}
ASSUMPTIONS = ["run-time checks are enabled (DgCommonsConstants.checks, the shipped default)", "timestamps in [-100, 100]"]


def _mk(ctx, n, kinds):
    return [ctx.real(f"t{i}", -100, 100, kind=kinds[i]) if kinds[i] != "i" else ctx.int(f"t{i}", -100, 100) for i in range(n)]


def construct(ctx, n, kinds, cls=DgSampledSequence):
    ts = _mk(ctx, n, kinds)
    vs = [f"v{i}" for i in range(n)]
    inc = ctx.and_(*[a < b for a, b in zip(ts, ts[1:])])
    mixed = "d" in kinds and (set(kinds) - {"d"})
    try:
        s = cls(timestamps=list(ts), values=list(vs))
    except Exception:
        s = None
    if s is None:
        ctx.true(True if mixed else ctx.not_(inc), "rejects only invalid timestamps")
        return
    ctx.true(not mixed, "Decimal mixed with float or int is rejected")
    ctx.true(inc, "accepted timestamps are strictly increasing")
    ctx.true(len(s) == n, "length")
    ctx.seq_eq(s.timestamps, ts, "timestamps kept", 1e-9)
    ctx.true(list(s.values) == vs, "values kept")
    it = list(s)
    ctx.true(len(it) == n and all(a is b for (_, a), b in zip(it, vs)), "iteration yields the pairs")
    ctx.seq_eq([t for t, _ in it], ts, "iteration timestamps", 1e-9)
    if n:
        ctx.eq(s.get_start(), ts[0], "start", 1e-9)
        ctx.eq(s.get_end(), ts[-1], "end", 1e-9)
        ctx.seq_eq(s.get_sampling_points(), ts, "sampling points", 1e-9)


def length_mismatch(ctx, n, m):
    ts = ctx.timestamps("t", n, -100, 100)
    ctx.raises(lambda: DgSampledSequence(timestamps=ts, values=[f"v{i}" for i in range(m)]), Exception, "length mismatch is rejected")


def non_numbers(ctx):
    ts = ctx.timestamps("t", 2, -100, 100, kind="f")
    bad = ctx.choice("bad", ["1.0", None, (1,), 1j, [2.0]])
    pos = ctx.choice("pos", [0, 1, 2])
    lst = list(ts)
    lst.insert(pos, bad)
    ctx.raises(lambda: DgSampledSequence(timestamps=lst, values=["a", "b", "c"]), Exception, "a non-number timestamp is rejected")


def immutable(ctx, n=3):
    ts = ctx.timestamps("t", n, -100, 100)
    lt, lv = list(ts), [f"v{i}" for i in range(n)]
    s = DgSampledSequence[str](timestamps=lt, values=lv)
    s2 = DgSampledSequence[str](timestamps=tuple(ts), values=tuple(lv))
    eq1 = s == s2
    ctx.true(eq1, "equal content compares equal")
    ctx.true(hash(s) == hash(s2), "equal content hashes equal")
    lt[0] = lt[0] + 1000
    lv.append("intruder")
    lt.append(5)
    for field in ("timestamps", "values"):
        ctx.raises(lambda: setattr(s, field, (1, 2)), Exception, f"assigning {field} is refused")
    ctx.seq_eq(s.timestamps, ts, "timestamps unchanged", 1e-9)
    ctx.true(list(s.values) == ["v0", "v1", "v2"][:n], "values unchanged")
    for get in (lambda: s.timestamps, lambda: s.values, lambda: s.get_sampling_points()):
        try:
            got = get()
            got[0] = 77
        except TypeError:
            pass
    ctx.seq_eq(s.timestamps, ts, "timestamps not writable", 1e-9)
    ctx.true(list(s.values) == ["v0", "v1", "v2"][:n], "values not writable")


class _MyList(list):
    pass


def _array(xs):
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


CONTAINERS = {"list": list, "tuple": tuple, "deque": deque, "array": _array, "own list": _MyList, "user list": UserList}


def containers(ctx, n=3):
    """the containers the samples come in do not matter, and later changes to them do not either"""
    ts = ctx.timestamps("t", n, -100, 100)
    mk_t, mk_v = ctx.choice("timestamps in", list(CONTAINERS)), ctx.choice("values in", list(CONTAINERS))
    vs = [f"v{i}" for i in range(n)]
    lt, lv = CONTAINERS[mk_t](ts), CONTAINERS[mk_v](vs)
    s = DgSampledSequence[str](timestamps=lt, values=lv)
    ref = DgSampledSequence[str](timestamps=tuple(ts), values=tuple(vs))
    same = s == ref
    ctx.true(isinstance(same, bool) and same, "equal to the sequence built from tuples")
    ctx.true(hash(s) == hash(ref), "hash as of the sequence built from tuples")
    if mk_t != "tuple":
        lt[n - 1] = lt[n - 1] + 1000
    if mk_v != "tuple":
        lv[0] = "intruder"
    ctx.seq_eq(s.timestamps, ts, "timestamps do not follow the container", 1e-9)
    ctx.true(list(s.values) == vs and s.at(ts[0]) == vs[0] and s.at_or_previous(ts[n - 1]) == vs[-1], "values do not follow the container")


def different(ctx, n=2):
    a, b = ctx.timestamps("a", n, -100, 100), ctx.timestamps("b", n, -100, 100)
    s, s2 = DgSampledSequence[str](a, ["x", "y"]), DgSampledSequence[str](b, ["x", "y"])
    same = ctx.and_(*[u == v for u, v in zip(a, b)])
    if s == s2:
        ctx.true(same, "equal only for equal timestamps")
        if ctx.symbolic is False:
            ctx.true(hash(s) == hash(s2), "hash")
    else:
        ctx.true(ctx.not_(same), "unequal only for different timestamps")
    ctx.true(not (s == DgSampledSequence[str](a, ["x", "z"])), "different values differ")


def empty(ctx):
    s = DgSampledSequence[str](timestamps=[], values=[])
    ctx.true(len(s) == 0 and list(s) == [], "empty sequence")
    ctx.raises(s.get_start, Exception, "no start")
    ctx.raises(s.get_end, Exception, "no end")
    t = ctx.real("t", -100, 100)
    ctx.raises(lambda: s.at(t), Exception, "no value")


def builder(ctx, n, kind, of=str, cls=None):
    mk = DgSampledSequenceBuilder if of is None else DgSampledSequenceBuilder[of]
    b = mk() if cls is None else mk(sampled_sequence_type=cls)
    snap = ctx.choice("snapshot after", list(range(1, n - 1)))
    other = DgSampledSequenceBuilder[str]()
    acc = []
    early = None
    for i in range(n):
        t = ctx.real(f"t{i}", -100, 100, kind=kind)
        before = list(b.timestamps), list(b.values)
        try:
            b.add(t, f"v{i}")
            ok = True
        except Exception:
            ok = False
        if ok:
            if acc:
                ctx.true(t > acc[-1][0], "accepts only strictly later samples")
            acc.append((t, f"v{i}"))
        else:
            ctx.true(bool(acc), "first sample accepted")
            if acc:
                ctx.true(t <= acc[-1][0], "rejects only samples that are not later")
            ctx.true(len(b.timestamps) == len(before[0]) and list(b.values) == before[1], "a rejected sample leaves no trace")
        ctx.true(len(b) == len(acc), "size")
        if i == snap:
            early, early_n = b.as_sequence(), len(acc)
    s = b.as_sequence()
    ctx.true(type(s) is (cls or DgSampledSequence), "the kind of sequence asked for")
    ctx.seq_eq(s.timestamps, [a for a, _ in acc], "timestamps", 1e-9)
    ctx.true(list(s.values) == [v for _, v in acc], "values")
    if early is not None:
        ctx.true(list(early.values) == [v for _, v in acc[:early_n]] and len(early.timestamps) == early_n, "earlier snapshot not affected")
    ctx.true(len(other) == 0, "builders are independent")


B = "symbolic timestamps in [-100,100]"
HARNESSES = (
    [H(construct, name=f"construct_{n}{k}", n=n, kinds=k * n, bounds=f"length {n}, kind {k}; {B}") for n in (0, 1, 2, 3, 4) for k in "df" if n < 4 or k == "d"]
    + [H(construct, name=f"construct_mix_{k}", n=len(k), kinds=k, bounds=f"kinds {k}; {B}") for k in ("ii", "iii", "fi", "if", "ifi", "di", "id", "df", "fd", "ddi", "ddf", "idd", "fdd", "dfd", "did")]
    + [H(construct, name="construct_trajectory", n=3, kinds="ddd", cls=Trajectory, bounds=f"length 3; {B}")]
    + [H(length_mismatch, name=f"mismatch_{n}_{m}", n=n, m=m, bounds=f"{n} timestamps, {m} values") for n, m in ((2, 3), (3, 2), (1, 0), (0, 1), (2, 1))]
    + [H(non_numbers, bounds="one non-number at any position of 3"), H(immutable, bounds="length 3"), H(containers, bounds="length 3, lists, tuples, deques, arrays and list subclasses"), H(different, bounds="two sequences of length 2"), H(empty)]
    + [H(builder, name=f"builder_{k}", n=4, kind=k, bounds=f"4 additions; {B}") for k in "df"]
    + [H(builder, name="builder_untyped", n=3, kind="d", of=None, bounds=f"3 additions, no type of values stated; {B}"),
       H(builder, name="builder_trajectory", n=3, kind="d", cls=Trajectory, bounds=f"3 additions, builder of trajectories; {B}"),
       H(builder, name="builder_trajectory_untyped", n=3, kind="d", of=None, cls=Trajectory, bounds=f"3 additions, builder of trajectories, no type of values stated; {B}")]
    + [H(builder, name="builder_5d", n=5, kind="d", tier="thorough", bounds="5 additions")]
    + [H(construct, name=f"construct_{n}d_deep", n=n, kinds="d" * n, tier="thorough", bounds=f"length {n}") for n in (5, 6)]
)

from __future__ import annotations

import math
from decimal import Decimal as D
from fractions import Fraction as F

from hypothesis import strategies as st

from dg_commons import DgSampledSequence, UndefinedAtTime
from dg_commons.seq import iterate_with_dt
from dg_commons.planning import Trajectory
from dg_commons.sim.models.vehicle import VehicleState
from pbt.core import ensure, ensure_close, ensure_raises, subtest
from pbt.gens import fl, seqs, ts_decode

P = "C02"
RULE = ("random sequences (float/int/Decimal times, 1..12 samples) with query times at, next to, between and outside the "
        "samples; non-trivial = the query class label (at/between/before/after/...)")


@st.composite
def query(draw, values=None, min_size=1):
    c = draw(seqs(min_size, 12, values=values))
    c["q"] = draw(q_of(c))
    return c


@st.composite
def q_of(draw, c):
    """A query time described relative to the samples; exact rationals in a string so nothing is lost."""
    n = len(c["ts"])
    i = draw(st.integers(0, n - 1))
    mode = draw(st.sampled_from(["at", "frac", "before", "after", "just_before", "just_after"]))
    k = draw(st.integers(1, 15))
    as_ = draw(st.sampled_from(["f", "D", "i", "same"]))
    return dict(i=i, mode=mode, k=k, as_=as_, e=draw(st.sampled_from([7, 7, 12, 13])))


def build(c, cls=DgSampledSequence[float]):
    ts = ts_decode(c["kind"], c["ts"])
    return ts, list(c["vals"]), cls(ts, list(c["vals"]))


def qtime(ts, q):
    ex = [F(t) for t in ts]
    i = q["i"]
    m = q["mode"]
    if m == "at":
        x = ex[i]
    elif m == "frac":
        j = min(i, len(ex) - 2) if len(ex) > 1 else 0
        x = ex[j] + (ex[j + 1] - ex[j]) * F(q["k"], 16) if len(ex) > 1 else ex[0]
    elif m == "before":
        x = ex[0] - F(q["k"], 4)
    elif m == "after":
        x = ex[-1] + F(q["k"], 4)
    elif m == "just_before":
        x = ex[i] - F(q["k"], 10**q.get("e", 7))
    else:
        x = ex[i] + F(q["k"], 10**q.get("e", 7))
    kind = q["as_"]
    if kind == "same":
        kind = "D" if isinstance(ts[0], D) else "f"
    if m == "at" and kind != "i":
        t = ts[i] if kind == "f" and not isinstance(ts[i], D) else (float(ts[i]) if kind == "f" else D(ts[i]))
    elif kind == "f":
        t = float(x)
    elif kind == "D":
        t = D(x.numerator) / D(x.denominator)
    else:
        t = int(x // 1)
    return t


@subtest(P, query, quick=2500, need=("at", "between", "before", "after"), shards=2)
def lookup_agrees_with_samples(case):
    ts, vals, s = build(case)
    t = qtime(ts, case["q"])
    ex, xt = [F(a) for a in ts], F(t)
    hit = [i for i, a in enumerate(ex) if a == xt]
    prev = [i for i, a in enumerate(ex) if a <= xt]
    # exact
    if hit:
        ensure(s.at(t) == vals[hit[0]], "at() at a sample", t=t)
    else:
        ensure_raises(lambda: s.at(t), UndefinedAtTime, "at() between samples", t=t)
    # at or previous
    if prev:
        ensure(s.at_or_previous(t) == vals[prev[-1]], "at_or_previous", t=t, got=s.at_or_previous(t), expected=vals[prev[-1]])
    else:
        ensure_raises(lambda: s.at_or_previous(t), UndefinedAtTime, "at_or_previous before the start", t=t)
    # interpolation
    v = s.at_interp(t)
    if xt <= ex[0]:
        ensure(v == vals[0], "at_interp before the start", got=v)
    elif xt >= ex[-1]:
        ensure(v == vals[-1], "at_interp after the end", got=v)
    else:
        i = prev[-1]
        a, b = F(vals[i]), F(vals[i + 1])
        e = a + (b - a) * (xt - ex[i]) / (ex[i + 1] - ex[i])
        tol = 1e-9 * (1 + abs(float(a)) + abs(float(b))) + 1e-13 * (1 + abs(float(xt))) * float(abs(b - a) / (ex[i + 1] - ex[i]))
        ensure_close(v, float(e), "at_interp", rtol=0, atol=tol, t=t)
        if hit:
            ensure_close(v, vals[hit[0]], "at_interp at a sample", rtol=1e-12, atol=0)
    ensure(tuple(s.timestamps) == tuple(ts) and tuple(s.values) == tuple(vals), "a query altered the sequence")
    return "before" if not prev else "at" if hit else "after" if xt > ex[-1] else "between"


@st.composite
def several(draw):
    c = draw(seqs(1, 9))
    c["qs"] = draw(st.lists(q_of(c), min_size=2, max_size=6))
    return c


@subtest(P, several, quick=600, need=("back", "forth"))
def lookups_do_not_depend_on_earlier_ones(case):
    """The same sequence asked for several times, in any order, answers like a fresh one."""
    ts, vals, s = build(case)
    labels, last = set(), None
    for q in case["qs"]:
        t = qtime(ts, q)
        prev = [i for i, a in enumerate(ts) if F(a) <= F(t)]
        if prev:
            ensure(s.at_or_previous(t) == vals[prev[-1]], "at_or_previous after other queries", t=t, got=s.at_or_previous(t), expected=vals[prev[-1]])
        else:
            ensure_raises(lambda: s.at_or_previous(t), UndefinedAtTime, "at_or_previous before the start", t=t)
        ensure(s.at_interp(t) == build(case)[2].at_interp(t), "at_interp after other queries", t=t)
        if last is not None:
            labels.add("back" if F(t) < F(last) else "forth")
        last = t
    return labels


def vstate(v):
    return VehicleState(x=v[0], y=v[1], psi=v[2], vx=v[3], delta=v[4])


@subtest(P, lambda: query(values=st.lists(fl(-50, 50), min_size=5, max_size=5), min_size=2), quick=500, need=("between",))
def interp_of_states(case):
    ts = ts_decode(case["kind"], case["ts"])
    vals = [vstate(v) for v in case["vals"]]
    s = Trajectory(ts, vals)
    t = qtime(ts, case["q"])
    got = s.at_interp(t)
    ensure(type(got) is VehicleState, "type of the interpolated state")
    out = [DgSampledSequence[float](ts, [v[k] for v in case["vals"]]).at_interp(t) for k in range(5)]
    ensure_close([got.x, got.y, got.psi, got.vx, got.delta], out, "state interpolation", atol=1e-9)
    ensure([(v.x, v.y, v.psi, v.vx, v.delta) for v in s.values] == [tuple(v) for v in case["vals"]], "stored states altered")
    return "between" if F(ts[0]) < F(t) < F(ts[-1]) else "outside"


@st.composite
def window(draw):
    c = draw(seqs(1, 12))
    c["a"], c["b"] = draw(q_of(c)), draw(q_of(c))
    return c


@subtest(P, window, quick=1500, need=("inner", "none", "all"))
def subsequence(case):
    ts, vals, s = build(case)
    a, b = qtime(ts, case["a"]), qtime(ts, case["b"])
    if F(a) > F(b):
        a, b = b, a
    sub = s.get_subsequence(a, b)
    exp = [(t, v) for t, v in zip(ts, vals) if F(a) <= F(t) <= F(b)]
    ensure(list(sub) == exp and [type(t) for t in sub.timestamps] == [type(t) for t, _ in exp], "subsequence", a=a, b=b, got=list(sub), expected=exp)
    ensure(list(s) == list(zip(ts, vals)), "source altered")
    if F(a) < F(b):
        ensure_raises(lambda: s.get_subsequence(b, a), Exception, "reversed window")
    return "none" if not exp else "all" if len(exp) == len(ts) else "inner"


@subtest(P, lambda: st.tuples(seqs(0, 10), st.integers(-40, 40), st.sampled_from([0, 2, 3, 99])), quick=1200, need=("dropped", "D"))
def shift_and_transform(case):
    c, k, drop = case
    ts, vals, s = build(c)
    dt = {"f": k / 8, "i": k, "D": D(k) * D("0.05")}[c["kind"]]
    sh = s.shift_timestamps(dt)
    ensure(list(sh.timestamps) == [t + dt for t in ts] and list(sh.values) == vals, "shift", got=list(sh))
    back = sh.shift_timestamps(-dt)
    ensure_close([float(t) for t in back.timestamps], [float(t) for t in ts], "shift there and back")
    calls = []

    def f(v):
        calls.append(v)
        return None if drop and round(abs(v)) % drop == 0 else ("m", v)

    tr = s.transform_values(f, YT=tuple)
    exp = [(t, f2) for t, f2 in ((t, None if drop and round(abs(v)) % drop == 0 else ("m", v)) for t, v in zip(ts, vals)) if f2 is not None]
    ensure(list(tr) == exp, "transform", got=list(tr), expected=exp)
    ensure(calls == vals, "transform must call the function once per sample in order", calls=calls)
    zero = s.transform_values(lambda v: 0, YT=int)
    ensure(list(zero) == [(t, 0) for t in ts], "falsy values must be kept", got=list(zero))
    nan = s.transform_values(lambda v: math.nan if round(abs(v)) % 2 else v, YT=float)
    ensure(list(nan.timestamps) == ts, "values which are not a number must be kept", got=list(nan))
    ensure(list(s) == list(zip(ts, vals)), "source altered")
    return [c["kind"]] + (["dropped"] if len(exp) < len(ts) else [])


@subtest(P, lambda: seqs(0, 12), quick=600, need=("many",))
def iterate_pairs(case):
    ts, vals, s = build(case)
    its = list(iterate_with_dt(s))
    ensure(len(its) == max(0, len(ts) - 1), "number of intervals", n=len(its))
    for i, it in enumerate(its):
        ensure(it.v0 == vals[i] and it.v1 == vals[i + 1], "values of the interval", i=i)
        ensure_close([it.t0, it.t1], [float(ts[i]), float(ts[i + 1])], "times of the interval", atol=0, rtol=1e-12)
        ensure_close(it.dt, float(F(ts[i + 1]) - F(ts[i])), "dt", atol=1e-12 * (1 + abs(float(ts[i]))), rtol=1e-9)
    return "many" if len(its) > 1 else None


@subtest(P, lambda: st.tuples(seqs(1, 10, kinds=("i",)), st.integers(0, 400)), quick=600, need=("between",))
def timestamp_types_agree(case):
    c, k = case
    ts = c["ts"]
    q = ts[0] - 5 + k / 8
    variants = {
        "i": DgSampledSequence[float]([int(t) for t in ts], c["vals"]),
        "f": DgSampledSequence[float]([float(t) for t in ts], c["vals"]),
        "D": DgSampledSequence[float]([D(t) for t in ts], c["vals"]),
    }
    qs = [float(q), D(str(q))] + ([int(q)] if q == int(q) else [])

    def tryf(f):
        try:
            return f()
        except UndefinedAtTime:
            return "undefined"

    ref = None
    for s in variants.values():
        for t in qs:
            r = (tryf(lambda: s.at(t)), tryf(lambda: s.at_or_previous(t)), round(float(s.at_interp(t)), 7), tuple(s.get_subsequence(t, t + 2).values))
            if ref is None:
                ref = r
            ensure(r[0] == ref[0] and r[1] == ref[1] and abs(r[2] - ref[2]) < 1e-6 and r[3] == ref[3], "timestamp types disagree", got=r, expected=ref)
    return "between" if ts[0] < q < ts[-1] else "outside"

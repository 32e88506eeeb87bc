from __future__ import annotations

from decimal import Decimal as D
from fractions import Fraction as F

from hypothesis import strategies as st

from dg_commons import DgSampledSequence
from dg_commons.seq import seq_accumulate, seq_differentiate, seq_integrate
from dg_commons.seq.seq_op import find_crossings
from pbt.core import ensure, ensure_close, ensure_raises, subtest
from pbt.gens import fl, seqs, ts_decode

P = "C03"
RULE = "random sequences of every timestamp type and thresholds (incl. sample values); non-trivial = >= 2 samples with varying values / at least one crossing"
VAL = st.one_of(fl(-100, 100), st.integers(-6, 6).map(float), st.integers(-6, 6))


def build(c):
    ts = ts_decode(c["kind"], c["ts"])
    return ts, list(c["vals"]), DgSampledSequence[float](ts, list(c["vals"]))


@subtest(P, lambda: seqs(2, 12, values=VAL), quick=1500, need=("f", "i", "D"))
def integrate_is_trapezoid(case):
    ts, vals, s = build(case)
    r = seq_integrate(s)
    tot, exp = F(0), []
    for i in range(len(ts) - 1):
        tot += (F(vals[i]) + F(vals[i + 1])) / 2 * (F(ts[i + 1]) - F(ts[i]))
        exp.append(float(tot))
    mag = sum(abs(v) for v in vals) * (abs(float(ts[0])) + abs(float(ts[-1])) + 1)
    ensure_close([float(t) for t in r.timestamps], [float(t) for t in ts[1:]], "timestamps of the integral", rtol=1e-12, atol=1e-12)
    ensure_close(r.values, exp, "integral", rtol=1e-9, atol=1e-12 * (1 + mag))
    ensure(list(s) == list(zip(ts, vals)), "input altered")
    # linearity
    s2 = DgSampledSequence[float](ts, [3 * v - 1 for v in vals])
    ensure_close(seq_integrate(s2).values, [3 * e - float(F(t) - F(ts[0])) for e, t in zip(exp, ts[1:])], "linearity", rtol=1e-8, atol=1e-10 * (1 + mag))
    return case["kind"]


@subtest(P, lambda: seqs(2, 12, values=VAL), quick=1500, need=("f", "i", "D"))
def differentiate_is_slope(case):
    ts, vals, s = build(case)
    r = seq_differentiate(s)
    n = len(ts) - 1
    ensure(len(r) == n, "number of derivatives", got=len(r))
    for i in range(n):
        dt = F(ts[i + 1]) - F(ts[i])
        e = float((F(vals[i + 1]) - F(vals[i])) / dt)
        ensure_close(r.values[i], e, "slope", rtol=1e-8 + 1e-14 * (abs(float(ts[i])) + abs(float(ts[i + 1]))) / float(dt), atol=1e-10, i=i)
        ensure_close(float(r.timestamps[i]), float((F(ts[i]) + F(ts[i + 1])) / 2), "midpoint", rtol=1e-10, atol=1e-10, i=i)
    ensure(list(s) == list(zip(ts, vals)), "input altered")
    # fundamental theorem: the integral's differences are slope*dt of the averaged signal
    I = seq_integrate(s)
    tt = [ts[0]] + list(ts[1:])
    acc = DgSampledSequence[float](tt, [0.0] + list(I.values))
    dd = seq_differentiate(acc)
    mag = 1 + max(abs(v) for v in vals)
    for i in range(n):
        ddt = float(F(ts[i + 1]) - F(ts[i]))
        tol = 1e-8 * mag + 1e-12 * mag * len(ts) * (abs(float(ts[0])) + abs(float(ts[-1])) + 1) / ddt
        ensure_close(dd.values[i], (vals[i] + vals[i + 1]) / 2, "d/dt of the integral", rtol=1e-8, atol=tol)
    return case["kind"]


@subtest(P, lambda: seqs(0, 1, values=VAL), quick=200, need=("empty", "single"))
def nothing_to_integrate_or_differentiate(case):
    """Without samples there is nothing to compute (ValueError); one sample has no slope, and its integral is itself (documented)."""
    ts, vals, s = build(case)
    if not ts:
        ensure_raises(lambda: seq_integrate(s), ValueError, msg="integral of an empty sequence")
        ensure_raises(lambda: seq_differentiate(s), ValueError, msg="derivative of an empty sequence")
        return "empty"
    r = seq_integrate(s)
    ensure(list(r) == list(zip(ts, vals)), "integral of a single sample", got=str(list(r)))
    ensure(len(seq_differentiate(s)) == 0, "derivative of a single sample")
    return "single"


@subtest(P, lambda: seqs(1, 12, values=VAL), quick=800, need=("many",))
def accumulate_is_running_sum(case):
    ts, vals, s = build(case)
    r = seq_accumulate(s)
    exp, tot = [], F(0)
    for v in vals:
        tot += F(v)
        exp.append(float(tot))
    ensure(tuple(r.timestamps) == tuple(ts), "timestamps")
    ensure_close(r.values, exp, "running sum", atol=1e-9)
    ensure(list(s) == list(zip(ts, vals)), "input altered")
    return "many" if len(ts) > 2 else None


@st.composite
def crossing(draw):
    c = draw(seqs(1, 14, values=st.one_of(fl(-5, 5), st.integers(-3, 3).map(float), st.integers(-3, 3))))
    c["th"] = draw(st.one_of(fl(-3, 3), st.sampled_from([float(v) for v in c["vals"]]), st.just(0.0)))
    return c


@subtest(P, crossing, quick=2500, need=("f", "i", "D", "crossing", "sample_on_threshold", "multi"))
def crossings(case):
    """A segment counts as a crossing when its end points lie on different sides (a sample on the threshold
    belongs to the upper side, cf. signbit)."""
    ts, vals, s = build(case)
    th = case["th"]
    got = find_crossings(s, th)
    fth = F(th)
    strict = 0
    exp = []
    for i in range(len(ts) - 1):
        a, b = F(vals[i]) - fth, F(vals[i + 1]) - fth
        if (a >= 0) != (b >= 0):
            exp.append(F(ts[i]) + a / (a - b) * (F(ts[i + 1]) - F(ts[i])))
            strict += a != 0 and b != 0
    ensure(len(got) == len(exp), "number of crossings", got=got, expected=[float(e) for e in exp], ts=ts, vals=vals, th=th)
    for g, e in zip(got, exp):
        ensure_close(float(g), float(e), "crossing time", rtol=1e-9, atol=1e-9)
    for a, b in zip(got, got[1:]):
        ensure(float(a) <= float(b) + 1e-9, "order of crossings")
    ensure(list(s) == list(zip(ts, vals)), "input altered")
    labels = {case["kind"]} if exp else set()
    if strict:
        labels.add("crossing")
    if exp and any(F(v) == fth for v in vals):
        labels.add("sample_on_threshold")
    if len(exp) > 1:
        labels.add("multi")
    return labels

"""Shared generators of plain (JSON-able) cases and decoders."""
from __future__ import annotations

import math
from decimal import Decimal as D

from hypothesis import strategies as st


def fl(lo, hi, **kw):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False, **kw)


def nice(lo, hi):
    """Floats with a good share of round numbers and end points."""
    pool = [v for v in (lo, hi, 0.0, 1.0, -1.0, 0.5, (lo + hi) / 2) if lo <= v <= hi]
    return st.one_of(fl(lo, hi), st.sampled_from(pool), st.integers(math.ceil(lo * 8), math.floor(hi * 8)).map(lambda k: k / 8) if hi - lo > 1 else fl(lo, hi))


ANGLE = st.one_of(
    fl(-math.pi, math.pi),
    st.sampled_from([0.0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, math.pi / 4, -3 * math.pi / 4, 3.0, -3.0]),
)
BIG_ANGLE = st.one_of(ANGLE, fl(-30.0, 30.0), st.integers(-8, 8).map(lambda k: k * math.pi / 2))


def ts_decode(kind, ts):
    return [ts_one(kind, t) for t in ts]


def ts_one(kind, t):
    if kind == "D":
        return D(t)
    if kind == "i":
        return int(t)
    return float(t)


@st.composite
def timestamps(draw, min_size=1, max_size=12, kinds=("f", "i", "D")):
    """{"kind","ts"}: strictly increasing times."""
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(min_size, max_size))
    if kind == "f":
        t = draw(st.one_of(fl(-100, 100), st.just(0.0)))
        steps = draw(st.lists(st.one_of(fl(1e-3, 10), st.sampled_from([0.1, 0.5, 1.0])), min_size=n, max_size=n))
        out = []
        for s in steps:
            out.append(t)
            t = t + s
        return dict(kind=kind, ts=out)
    if kind == "i":
        t = draw(st.integers(-50, 50))
        out = []
        for s in draw(st.lists(st.integers(1, 9), min_size=n, max_size=n)):
            out.append(t)
            t += s
        return dict(kind=kind, ts=out)
    q = D(draw(st.sampled_from(["0.1", "0.05", "0.01", "0.25", "1"])))
    t = draw(st.integers(-200, 200))
    out = []
    for s in draw(st.lists(st.integers(1, 30), min_size=n, max_size=n)):
        out.append(str(t * q))
        t += s
    return dict(kind=kind, ts=out)


@st.composite
def seqs(draw, min_size=1, max_size=12, kinds=("f", "i", "D"), values=None, long=True):
    """A sequence; with `long` some are several rounds of the drawn one (up to ~100 samples)."""
    t = draw(timestamps(min_size, max_size, kinds))
    n = len(t["ts"])
    values = values if values is not None else st.one_of(fl(-1e3, 1e3), st.integers(-20, 20).map(float), st.integers(-20, 20))
    t["vals"] = draw(st.lists(values, min_size=n, max_size=n))
    rounds = draw(st.integers(0, 79)) - 71 if long and n > 1 else 0
    if rounds > 0:
        t = _again(t, rounds)
    return t


def _again(t, rounds):
    """The sequence followed by `rounds` further ones, each with the values moved on by one."""
    conv = {"f": float, "i": int, "D": D}[t["kind"]]
    ts, vals = [conv(x) for x in t["ts"]], t["vals"]
    n, period = len(ts), ts[-1] - ts[0] + ts[1] - ts[0]
    out = [x + k * period for k in range(rounds + 1) for x in ts]
    vals = [vals[(i + k) % n] for k in range(rounds + 1) for i in range(n)]
    return dict(t, ts=[str(x) for x in out] if t["kind"] == "D" else out, vals=vals)


def se2(big=False, span=50.0):
    return st.tuples(nice(-span, span), nice(-span, span), BIG_ANGLE if big else ANGLE).map(list)


def wrap(a):
    """Angle difference on the circle, in (-pi, pi]"""
    return math.atan2(math.sin(a), math.cos(a))

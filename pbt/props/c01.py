from __future__ import annotations

import math
from decimal import Decimal as D

from hypothesis import strategies as st

from dg_commons import DgSampledSequence, DgSampledSequenceBuilder
from pbt.core import ensure, ensure_raises, subtest
from pbt.gens import seqs, ts_decode

P = "C01"
RULE = ("random well-formed sequences, the same with one defect injected, and random builder histories; a case is non-trivial "
        "when it has >= 2 samples, an injected defect, or a builder history with a rejected add after a snapshot")

VALUE = st.one_of(st.integers(-9, 9), st.floats(-9, 9), st.text(max_size=3), st.booleans(), st.none())


@subtest(P, lambda: st.tuples(seqs(0, 10, values=VALUE), st.booleans()), quick=1200, need=("f", "i", "D", "empty", "many"))
def accepts_and_keeps(case):
    c, as_tuple = case
    ts = ts_decode(c["kind"], c["ts"])
    vals = list(c["vals"])
    its, ivals = (tuple(ts), tuple(vals)) if as_tuple else (list(ts), list(vals))
    s = DgSampledSequence[object](its, ivals)
    s2 = DgSampledSequence[object](timestamps=list(ts), values=list(vals))
    if not as_tuple:  # later changes of the caller's lists
        its.append(its[-1] + 1 if its else 0)
        ivals.append("x")
        its.reverse(), ivals.reverse()
    ensure(tuple(s.timestamps) == tuple(ts) and [type(t) for t in s.timestamps] == [type(t) for t in ts], "timestamps altered")
    ensure(tuple(s.values) == tuple(vals) and [type(v) for v in s.values] == [type(v) for v in vals], "values altered")
    ensure(tuple(s.get_sampling_points()) == tuple(ts), "sampling points")
    ensure(len(s) == len(ts) and list(s) == list(zip(ts, vals)), "len/iteration")
    ensure(s == s2 and hash(s) == hash(s2), "equal content must be equal and hash equally")
    h = hash(s)
    for attr, v in (("timestamps", [1, 2]), ("values", [3, 4])):
        ensure_raises(lambda: setattr(s, attr, v), Exception, f"assigning {attr}")
    for holder in (s.timestamps, s.values):
        if hasattr(holder, "append"):
            holder.append(1)
        try:
            holder[0] = 99
        except Exception:
            pass
    ensure(tuple(s.timestamps) == tuple(ts) and tuple(s.values) == tuple(vals) and hash(s) == h, "sequence was changed after construction")
    ensure(not hasattr(s.timestamps, "append") and not hasattr(s.values, "append"), "mutable content handed out")
    if ts:
        ensure(s.get_start() == ts[0] and s.get_end() == ts[-1], "start/end")
        other = DgSampledSequence[object](ts, vals[:-1] + [("different",)])
        ensure(other != s, "different values compare equal")
        moved = DgSampledSequence[object](ts[:-1] + [ts[-1] + 1], vals)
        ensure(moved != s, "different timestamps compare equal")
    else:
        ensure_raises(s.get_start, Exception, "start of an empty sequence")
        ensure_raises(s.get_end, Exception, "end of an empty sequence")
    return (c["kind"], "many") if len(ts) >= 2 else ("empty" if not ts else "one")


DEFECTS = ["long_ts", "long_vals", "equal", "swap", "decreasing", "str", "none", "complex", "list", "mixed", "nan", "barely"]


@st.composite
def bad(draw):
    c = draw(seqs(2, 9))
    d = draw(st.sampled_from(DEFECTS))
    i = draw(st.one_of(st.integers(0, len(c["ts"]) - 1), st.just(len(c["ts"]) - 1)))
    return dict(c=c, defect=d, at=i)


@subtest(P, bad, quick=1500, need=tuple(DEFECTS))
def rejects_malformed(case):
    c, d, i = case["c"], case["defect"], case["at"]
    ts, vals = ts_decode(c["kind"], c["ts"]), list(c["vals"])
    k = min(i, len(ts) - 2)
    if d == "long_ts":
        vals.pop(i)
    elif d == "long_vals":
        vals.insert(i, 0)
    elif d == "equal":
        ts[k + 1] = ts[k]
    elif d == "swap":
        ts[k], ts[k + 1] = ts[k + 1], ts[k]
    elif d == "decreasing":
        ts[k + 1] = ts[k] - 1
    elif d == "barely":  # the smallest step backwards
        ts[k + 1] = ts[k] - 1 if c["kind"] == "i" else (ts[k] - D("1e-12") if c["kind"] == "D" else math.nextafter(ts[k], -math.inf))
    elif d == "str":
        ts[i] = str(ts[i])
    elif d == "none":
        ts[i] = None
    elif d == "complex":
        ts[i] = complex(ts[i])
    elif d == "list":
        ts[i] = [ts[i]]
    elif d == "mixed":
        if c["kind"] != "D":
            ts[i] = D(str(ts[i]))
        elif i in (0, len(ts) - 1):  # an integer among Decimals
            ts[i] = int(ts[i]) + (2 if i else -2)
        else:
            ts[i] = float(ts[i])
    elif d == "nan":
        ts = [float(t) for t in ts]
        ts[i] = float("nan")
    ensure_raises(lambda: DgSampledSequence[float](ts, vals), Exception, f"malformed ({d})", key=f"accepted:{d}", ts=ts, vals=vals)
    return d


@subtest(P, lambda: st.tuples(st.sampled_from("fD"), st.lists(st.sampled_from(["1", 1, 1.0, [1], None, "x"]), min_size=1, max_size=1)), quick=20)
def rejects_single_non_number(case):
    kind, (t,) = case
    if isinstance(t, (int, float)) and not isinstance(t, bool):
        DgSampledSequence[float]([t], [0])
        return None
    ensure_raises(lambda: DgSampledSequence[float]([t], [0]), Exception, "non-number timestamp", t=t)
    return "bad"


@st.composite
def builder_ops(draw):
    kind = draw(st.sampled_from(["f", "i", "D", "fine"]))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("add"), st.integers(-3, 12), st.one_of(st.integers(-99, 99), st.integers(-99, 99), st.none(), st.lists(st.integers(0, 3), max_size=3))),
        st.tuples(st.just("snap"), st.just(0), st.just(0))), min_size=1, max_size=25))
    return dict(kind=kind, ops=[list(o) for o in ops])


@subtest(P, builder_ops, quick=1500, need=("rejected", "snapshots", "add_after_snapshot"))
def builder_history(case):
    """Stateful: the builder against a list; `add` moves by a relative (possibly non-positive) amount of quarter units."""
    kind = case["kind"]
    conv = {"f": lambda k: k * 0.25, "i": int, "D": lambda k: D(k) * D("0.25"), "fine": lambda k: D("86400.5") + D(k) * D("1e-15")}[kind]
    b = DgSampledSequenceBuilder[int]()
    other = DgSampledSequenceBuilder[int]()
    model, snaps, labels, now = [], [], set(), 0
    for op, dt, v in case["ops"]:
        if op == "add":
            tick = now + dt
            t = conv(tick)
            if not model or t > model[-1][0]:
                b.add(t, v)
                model.append((t, v))
                now = tick
                if snaps:
                    labels.add("add_after_snapshot")
            else:
                ensure_raises(lambda: b.add(t, v), Exception, "builder accepted a non-increasing time", t=t, model=model)
                ensure_raises(lambda: b.add(t, model[-1][1]), Exception, "builder accepted a non-increasing time with the last value again", t=t, model=model)
                labels.add("rejected")
        else:
            s = b.as_sequence()
            snaps.append((s, tuple(model)))
        ensure(len(b) == len(model) and list(zip(b.timestamps, b.values)) == model, "builder content", got=list(zip(b.timestamps, b.values)), model=model)
        for s, m in snaps:
            ensure(tuple(s) == m, "snapshot followed the builder", got=tuple(s), expected=m)
    ensure(len(other) == 0, "builders share their content")
    s = b.as_sequence()
    ensure(tuple(s) == tuple(model) and s.XT is int, "final sequence")
    if len(snaps) > 1:
        labels.add("snapshots")
    return labels

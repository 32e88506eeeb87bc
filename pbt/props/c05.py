from __future__ import annotations

import copy
import math

import numpy as np
from geometry import xytheta_from_SE2
from hypothesis import strategies as st

from dg_commons.sim.models import extract_pose_from_state
from dg_commons.sim.models.utils import extract_2d_position_from_state, extract_vel_from_state
from dg_commons.sim.models.vehicle_ligths import LIGHTS_TURN_LEFT, LIGHTS_TURN_RIGHT, NO_LIGHTS
from pbt.core import ensure, ensure_close, ensure_raises, subtest
from pbt.gens import fl, nice, wrap
from pbt.zoo import COMMANDS, FAMILIES, STATES

P = "C05"
RULE = "random component vectors for every state and command type; non-trivial = at least two different non-zero components (so swaps show)"
TYPES = [("state", f) for f in FAMILIES] + [("command", f) for f in FAMILIES if f != "vehicle_dyn"]


def cls_of(what, fam):
    return (STATES if what == "state" else COMMANDS)[fam]


@st.composite
def vec_case(draw):
    what, fam = draw(st.sampled_from(TYPES))
    cls, fs = cls_of(what, fam)
    val = nice(-100.0, 100.0)
    return dict(what=what, fam=fam, a=draw(st.lists(val, min_size=len(fs), max_size=len(fs))), b=draw(st.lists(val, min_size=len(fs), max_size=len(fs))),
                k=draw(st.one_of(fl(-20, 20), st.sampled_from([0.0, 1.0, -1.0, 2.0, 0.5]), st.integers(-4, 4))), knp=draw(st.booleans()), perm=draw(st.integers(0, 10**6)))


def comps(o, fs):
    return [float(getattr(o, f)) for f in fs]


@subtest(P, vec_case, quick=3000, shards=3, need=tuple(f"{w}:{f}" for w, f in TYPES))
def vector_space(case):
    what, fam = case["what"], case["fam"]
    cls, fs = cls_of(what, fam)
    a, b, k = case["a"], case["b"], case["k"]
    if case["knp"]:  # factors may also be integers or numpy scalars
        k = np.float64(k) if isinstance(k, float) else np.int64(k)
    A, B = cls(**dict(zip(fs, a))), cls(**dict(zip(fs, b)))
    n = cls.get_n_states() if what == "state" else cls.get_n_commands()
    ensure(n == len(fs), "number of components", n=n)
    ensure(dict(cls.idx) == {f: i for i, f in enumerate(fs)}, "component index", idx=dict(cls.idx))
    arr = A.as_ndarray()
    ensure(isinstance(arr, np.ndarray) and arr.shape == (len(fs),), "array shape")
    ensure_close(arr, a, "to array", atol=0, rtol=0)
    back = cls.from_array(np.array(a))
    ensure(type(back) is cls and comps(back, fs) == a, "from array", got=comps(back, fs), expected=a)
    ensure(back == A and hash(cls(**dict(zip(fs, a)))) == hash(A), "round trip equality/hash")
    arr[:] = 7.77
    ensure(comps(A, fs) == a, "array aliases the object")
    src = np.array(a)
    obj = cls.from_array(src)
    src[:] = 3.33
    ensure(comps(obj, fs) == a, "object aliases the array")
    for bad in (np.zeros(len(fs) + 1), np.zeros(len(fs) - 1), np.zeros((len(fs), 1, 2))):
        ensure_raises(lambda: cls.from_array(bad), Exception, "array of the wrong size", shape=bad.shape)
    na, nb = np.array(a), np.array(b)
    for name, got, exp in (
        ("+", A + B, na + nb), ("-", A - B, na - nb), ("*", A * k, na * k), ("r*", k * A, na * k),
        ("a-a", A - A, na * 0), ("commute", B + A, na + nb),
    ):
        ensure(type(got) is cls, f"type of {name}", got=type(got))
        ensure_close(comps(got, fs), exp, f"operation {name}", rtol=1e-12, atol=1e-12)
        ensure_close(got.as_ndarray(), exp, f"array of {name}", rtol=1e-12, atol=1e-12)
    if k != 0 and abs(k) > 1e-3:
        ensure_close(comps(A / k, fs), na / k, "operation /", rtol=1e-9, atol=1e-9)
        ensure(type(A / k) is cls, "type of /")
    acc = A
    acc += B
    ensure_close(comps(acc, fs), na + nb, "+=", rtol=1e-12, atol=1e-12)
    ensure(comps(A, fs) == a and comps(B, fs) == b, "operands changed", A=comps(A, fs), B=comps(B, fs))
    for other in (1.0, 0, None, "x", [1, 2], na):
        for op in (lambda: A + other, lambda: A - other):
            if isinstance(other, np.ndarray):
                continue  # numpy broadcasts over arbitrary objects
            ensure_raises(op, Exception, "combination with another type", other=other)
    C = copy.deepcopy(A)
    ensure(C == A and C is not A, "copy")
    setattr(C, fs[-1], a[-1] + 1)
    ensure(comps(A, fs) == a and C != A, "copy shares data")
    return f"{what}:{fam}" if len({v for v in a if v}) > 1 else None


class _Lookalike:
    """A scalable value with arbitrary components, unrelated to the states and commands."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __mul__(self, k):
        return _Lookalike(**{n: v * k for n, v in self.__dict__.items()})


@subtest(P, lambda: st.tuples(st.sampled_from(TYPES), st.sampled_from(TYPES), fl(-9, 9)), quick=600, need=("mixed",))
def mixed_types_rejected(case):
    (w1, f1), (w2, f2), v = case
    c1, n1 = cls_of(w1, f1)
    c2, n2 = cls_of(w2, f2)
    A, B = c1(**{k: v for k in n1}), c2(**{k: v for k in n2})
    if c1 is c2:
        ensure(A + B == A * 2, "same type")
        return None
    for nm, op in (("+", lambda: A + B), ("-", lambda: A - B), ("r+", lambda: B + A), ("r-", lambda: B - A)):
        ensure_raises(op, Exception, f"mixed {nm}", a=c1.__name__, b=c2.__name__)
    ensure(A != B, "different types compare equal")
    # a value of another type stays a value of another type when it happens to have the same components
    D = _Lookalike(**{k: v for k in dict.fromkeys((*n1, *n2))})
    for nm, op in (("+", lambda: A + D), ("-", lambda: A - D), ("r+", lambda: D + A)):
        ensure_raises(op, Exception, f"lookalike {nm}", a=c1.__name__)
    return "mixed"


LIGHTS = [NO_LIGHTS, LIGHTS_TURN_LEFT, LIGHTS_TURN_RIGHT]


@subtest(P, lambda: st.tuples(st.sampled_from(range(len(LIGHTS))), fl(-5, 5), fl(-1, 1)), quick=100)
def lights_survive_arithmetic(case):
    """The signal is not part of the vector: it stays with the command it belongs to."""
    i, acc, dd = case
    c, _ = COMMANDS["vehicle"]
    A = c(acc=acc, ddelta=dd, lights=LIGHTS[i])
    ensure((A * 2).lights == LIGHTS[i] and (A + c(1, 1)).lights == LIGHTS[i], "lights lost")
    ensure((A * 2).acc == 2 * acc and A.as_ndarray().tolist() == [acc, dd], "components")
    return "lit" if i else None


@subtest(P, lambda: st.tuples(st.sampled_from(FAMILIES), nice(-1e3, 1e3), nice(-1e3, 1e3), st.floats(-20, 20), fl(-30, 30)), quick=1000)
def pose_extraction(case):
    fam, x, y, psi, vx = case
    cls, fs = STATES[fam]
    s = cls(**{**{k: 0.1 for k in fs}, "x": x, "y": y, "psi": psi, **({"vx": vx} if "vx" in fs else {})})
    q = extract_pose_from_state(s)
    ensure_close(q, [[math.cos(psi), -math.sin(psi), x], [math.sin(psi), math.cos(psi), y], [0, 0, 1]], "pose matrix", rtol=1e-12, atol=1e-12)
    xyt = xytheta_from_SE2(q)
    ensure_close([xyt[0], xyt[1], wrap(xyt[2] - psi)], [x, y, 0], "pose", rtol=1e-12, atol=1e-9)
    ensure_close(extract_2d_position_from_state(s), [x, y], "position", atol=0)
    if "vx" in fs:
        ensure(extract_vel_from_state(s) == vx, "velocity")
    else:
        ensure_raises(lambda: extract_vel_from_state(s), Exception, "velocity of a state without one")
    ensure(comps(s, ["x", "y", "psi"]) == [x, y, psi], "state altered")
    return fam if x and y and psi else None

from __future__ import annotations

import math

from hypothesis import strategies as st

from dg_commons.controllers.pid import PID, PIDParam
from dg_commons.controllers.speed import SpeedController, SpeedControllerParam
from dg_commons.controllers.steer import SteerController, SteerControllerParam
from dg_commons.sim.models.vehicle_utils import VehicleParameters
from pbt.core import ensure, ensure_close, ensure_raises, subtest
from pbt.gens import fl, nice

P = "C19"
RULE = ("random gains, limits (also one-sided) and histories of 1-25 operations (measurement, reference, control at equal, later or much "
        "later times) on one or two controllers; labels: saturated / integral_clipped / setpoint_clipped / repeated_time / derivative")


def pair(lo, hi):
    return st.tuples(nice(lo, hi), nice(lo, hi)).map(lambda p: sorted(p)).filter(lambda p: p[1] - p[0] > 1e-3)


@st.composite
def params(draw):
    kind = draw(st.sampled_from(["pid", "speed", "steer", "speed_default", "steer_default", "speed_vehicle", "steer_vehicle", "speed_param", "steer_param"]))
    d = dict(kind=kind, kP=draw(nice(-5, 10)), kI=draw(st.one_of(nice(-3, 5), st.just(0.0))), kD=draw(st.one_of(nice(-2, 3), st.just(0.0))),
             aw=draw(pair(-3, 3)), sp=draw(pair(-20, 40)), out=draw(pair(-10, 10)))
    return d


OPS = st.lists(st.one_of(
    st.tuples(st.just("m"), nice(-50, 50)), st.tuples(st.just("r"), nice(-50, 50)),
    st.tuples(st.just("c"), st.one_of(st.sampled_from([0.1, 0.1, 0.05, 0.0, 1.0]), fl(1e-3, 5))),
).map(list), min_size=1, max_size=25)


@st.composite
def case(draw):
    return dict(a=draw(params()), b=draw(params()), t0=draw(st.sampled_from([0.0, 0.0, 3.5, 100.0])), ops=draw(st.lists(st.tuples(st.sampled_from([0, 0, 1]), st.one_of(
        st.tuples(st.just("m"), nice(-50, 50)), st.tuples(st.just("r"), nice(-50, 50)), st.tuples(st.just("c"), st.just(0)), st.tuples(st.just("c"), st.just(0)),
        st.tuples(st.just("t"), st.one_of(st.sampled_from([0.1, 0.1, 0.05, 1.0]), fl(1e-3, 5), fl(1e-4, 2e-2))), st.tuples(st.just("d"), nice(-0.05, 0.05)),
    ).map(list)).map(list), min_size=2, max_size=40)))


VP = dict(car=VehicleParameters.default_car, truck=VehicleParameters.default_truck, bike=VehicleParameters.default_bicycle)


def vehicle_params(d):
    return VehicleParameters(vx_limits=tuple(d["sp"]), acc_limits=tuple(d["out"]), delta_max=abs(d["aw"][1] - d["aw"][0]), ddelta_max=abs(d["out"][1]) + 0.1)


def make(d):
    """(controller, gains, anti windup, set point, output limits)"""
    k = d["kind"]
    kw = dict(kP=d["kP"], kI=d["kI"], kD=d["kD"], antiwindup=tuple(d["aw"]), setpoint_minmax=tuple(d["sp"]), output_minmax=tuple(d["out"]))
    g = (d["kP"], d["kI"], d["kD"], d["aw"], d["sp"], d["out"])
    kmh = 1 / 3.6
    speed = (4, 0.01, 0.1, (-2, 2), (-10 * kmh, 150 * kmh), (-8, 5))
    steer = (4, 0.1, 0.2, (-0.5, 0.5), (-math.pi / 6, math.pi / 6), (-1, 1))
    if k == "pid":
        return PID(PIDParam(**kw)), g
    if k == "speed":
        return SpeedController(SpeedControllerParam(**kw)), g
    if k == "steer":
        return SteerController(SteerControllerParam(**kw)), g
    if k == "speed_default":
        return SpeedController(), speed
    if k == "steer_default":
        return SteerController(), steer
    vp = vehicle_params(d)
    sp = speed[:4] + (vp.vx_limits, vp.acc_limits)
    se = steer[:4] + ((-vp.delta_max, vp.delta_max), (-vp.ddelta_max, vp.ddelta_max))
    if k == "speed_vehicle":
        return SpeedController.from_vehicle_params(vp), sp
    if k == "steer_vehicle":
        return SteerController.from_vehicle_params(vp), se
    if k == "speed_param":
        return SpeedController(SpeedControllerParam.from_vehicle_params(vp)), sp
    return SteerController(SteerControllerParam.from_vehicle_params(vp)), se


def clip(x, lim):
    return min(max(x, lim[0]), lim[1])


class Model:
    def __init__(self, g):
        self.kP, self.kI, self.kD, self.aw, self.sp, self.out = g
        self.m = 0.0
        self.r = 0.0
        self.I = 0.0
        self.e = 0.0
        self.t = None
        self.labels = set()

    def control(self, t):
        e = self.r - self.m
        dt = 0 if self.t is None else t - self.t
        raw = self.I + self.kI * e * dt
        self.I = clip(raw, self.aw)
        if self.I != raw:
            self.labels.add("integral_clipped")
        d = (e - self.e) / dt if dt else 0.0
        if dt and d and self.kD:
            self.labels.add("derivative")
        if self.t is not None and dt == 0:
            self.labels.add("repeated_time")
        self.e, self.t = e, t
        u = self.kP * e + self.I + self.kD * d
        if clip(u, self.out) != u:
            self.labels.add("saturated")
        return clip(u, self.out), abs(self.kP * e) + abs(self.I) + abs(self.kD * d) + abs(self.kD) * (abs(e) / dt if dt else 0)


@subtest(P, case, quick=3000, need=("saturated", "integral_clipped", "setpoint_clipped", "repeated_time", "derivative", "two"), shards=4)
def controllers_follow_the_pid_law(c):
    ctrls = [make(c["a"]), make(c["b"])]
    pids = [x[0] for x in ctrls]
    mods = [Model(x[1]) for x in ctrls]
    t = c["t0"]
    labels, used, first = set(), set(), [True, True]
    for p, m in zip(pids, mods):  # references are always given before controls
        p.update_reference(1.0)
        m.r = clip(1.0, m.sp)
    for w, (op, v) in c["ops"]:
        p, m = pids[w], mods[w]
        if op == "t":
            t += v
        elif op == "m":
            p.update_measurement(v)
            m.m = v
        elif op == "d":
            m.m += v
            p.update_measurement(m.m)
        elif op == "r":
            p.update_reference(v)
            m.r = clip(v, m.sp)
            if m.r != v:
                labels.add("setpoint_clipped")
            ensure_close(p.reference, m.r, "the set point is not clipped to its range")
        else:
            u = p.get_control(t)
            ex, scale = m.control(t)
            ensure(isinstance(u, float), "the output is no float", got=type(u).__name__)
            ensure(m.out[0] <= u <= m.out[1], "the output leaves its limits", got=u, limits=m.out)
            ensure_close(u, ex, "not the PID law", atol=1e-9 + 1e-11 * scale, rtol=1e-9, at=t, controller=c["ab"[w]]["kind"])
            if first[w] and m.kP > 0 and m.out[0] < 0 < m.out[1] and m.e != 0 and m.aw[0] <= 0 <= m.aw[1]:
                ensure((u > 0) == (m.e > 0) or abs(u) < 1e-12, "the first output does not point towards the reference")
            first[w] = False
            used.add(w)
    if len(used) == 2:
        labels.add("two")
    return labels | mods[0].labels | mods[1].labels


@st.composite
def bad_case(draw):
    return dict(which=draw(st.sampled_from(["antiwindup", "setpoint_minmax", "output_minmax"])), lo=draw(nice(-5, 5)), w=draw(st.sampled_from([0.0, 1.0, 0.25])), cls=draw(st.sampled_from(["pid", "speed", "steer"])))


@subtest(P, bad_case, quick=100)
def empty_ranges_are_rejected(c):
    cls = dict(pid=lambda **k: PIDParam(kP=1, kI=0, kD=0, **k), speed=SpeedControllerParam, steer=SteerControllerParam)[c["cls"]]
    ensure_raises(lambda: cls(**{c["which"]: (c["lo"], c["lo"] - c["w"])}), Exception, "an empty range is accepted")
    ok = cls(**{c["which"]: (c["lo"], c["lo"] + 1)})
    ensure(getattr(ok, c["which"]) == (c["lo"], c["lo"] + 1), "range changed")
    return "rejected"


@st.composite
def loop_case(draw):
    return dict(v0=draw(fl(0, 30)), ref=draw(fl(0, 30)), dt=draw(st.sampled_from([0.05, 0.1])), kind=draw(st.sampled_from(["speed", "steer"])), d0=draw(fl(-0.5, 0.5)), dref=draw(fl(-0.5, 0.5)))


@subtest(P, loop_case, quick=150)
def default_controllers_reach_their_reference(c):
    """Driving an integrator with the default gains settles at the reference."""
    if c["kind"] == "speed":
        ctrl, x, ref, tol = SpeedController(), c["v0"], c["ref"], 0.3
    else:
        ctrl, x, ref, tol = SteerController(), c["d0"], c["dref"], 0.03
    ctrl.update_reference(ref)
    e0 = abs(ref - x)
    n = int(20 / c["dt"])
    for i in range(n):
        ctrl.update_measurement(x)
        x += c["dt"] * ctrl.get_control(i * c["dt"])
        ensure(abs(ref - x) <= e0 + tol, "moves away from the reference", x=x, ref=ref)
    ensure(abs(ref - x) <= tol, "does not settle at the reference", x=x, ref=ref)
    return c["kind"]

from __future__ import annotations

import copy
import math
from decimal import Decimal as D

import numpy as np
from hypothesis import strategies as st

from dg_commons.dynamics import BicycleDynamics
from dg_commons.sim.models.tires import Pacejka, Pacejka4p
from dg_commons.sim.models.vehicle import VehicleCommands
from pbt import refdyn
from pbt.core import ensure, ensure_close, subtest
from pbt.gens import BIG_ANGLE, fl, nice, wrap
from pbt.zoo import COMMANDS, FAMILIES, STATES, cmd_of, cvec, mk_cmd, mk_model, mk_params, mk_state, model_cmd_case, sdict, svec

P = "C06"
RULE = ("random model family, geometry, parameters, state, command (inside and outside of the limits) and step; oracle = independently "
        "written equations of motion (pointwise) and their high-accuracy integration; non-trivial = the body moves")


@st.composite
def any_state_case(draw):
    """Also states which no command leads to (e.g. after an impact: faster than the limits)."""
    c = draw(model_cmd_case(over=2.0))
    f = draw(st.sampled_from([1, 1, 1, 1, 4.0]))
    c["x"] = {k: v * f if k in ("vx", "vy", "dpsi") else v for k, v in c["x"].items()}
    return c


@subtest(P, any_state_case, quick=3000, shards=3, need=tuple(FAMILIES))
def dynamics_pointwise(case):
    fam = case["fam"]
    m = mk_model(case)
    if case["dt"] > 0.05:  # the derivative is that of the given state, wherever the model itself is
        m.update(mk_cmd(fam, case["u"]), D("0.05"))
    s, u = mk_state(fam, case["x"]), mk_cmd(fam, case["u"])
    before = (svec(fam, s).tolist(), cvec(fam, u).tolist(), svec(fam, m.get_state()).tolist())
    d = m.dynamics(s, u)
    ref = refdyn.deriv(m, fam, case["x"], case["u"])
    ensure(type(d) is STATES[fam][0], "type of the derivative")
    for k in STATES[fam][1]:
        ensure_close(getattr(d, k), ref[k], f"d{k}/dt of {fam}", rtol=1e-9, atol=1e-9)
    ensure(before == (svec(fam, s).tolist(), cvec(fam, u).tolist(), svec(fam, m.get_state()).tolist()), "dynamics() altered its inputs")
    return fam if any(abs(ref[k]) > 1e-9 for k in ref) else None


def tolerance(m, case, ref):
    """Accuracy that can be expected of the default adaptive integration (rtol 1e-3): relative to the size of the states and
    of the motion; where a limit or regime is switched during the step one more step of that rate may be lost."""
    fam, dt = case["fam"], case["dt"]
    d0 = refdyn.deriv(m, fam, case["x"], case["u"])
    d1 = refdyn.deriv(m, fam, ref, case["u"])
    base = 6e-4 if fam == "vehicle_dyn" else 4e-5  # tyre forces make the former stiff
    off = {k: 0.0 for k in ref}
    if fam == "vehicle_dyn":  # what a default adaptive scheme loses on this case, evaluated on the reference equations
        rks = [refdyn.integrate_adaptive(m, fam, case["x"], case["u"], dt, carry) for carry in (False, True)]
        worst = max(abs(rk[k] - ref[k]) for rk in rks for k in ("vx", "vy", "dpsi"))
        off = {k: (4 * worst + 0.02 if k in ("vx", "vy", "dpsi") else 4 * (worst + 0.02) * dt + 4 * max(abs(rk[k] - ref[k]) for rk in rks)) for k in ref}
    return {k: off[k] + base + 1.5e-3 * min(abs(case["x"][k]), abs(ref[k] - case["x"][k]) + 1.0) + 1e-2 * abs(ref[k] - case["x"][k])
            + 0.6 * dt * abs(d0[k] - d1[k]) * 0.1 for k in STATES[fam][1]}


def switches(m, case, ref):
    """Does a limit/regime become active or inactive within the step?"""
    fam = case["fam"]
    p = m.model_params
    x, y = case["x"], ref
    out = False
    if fam in ("vehicle", "vehicle_dyn"):
        rng = dict(vx=p.vx_limits, delta=(-p.delta_max, p.delta_max))
        if fam == "vehicle_dyn":
            out = (x["vx"] < 0.12) != (y["vx"] < 0.12) or (x["vx"] < 0.08) != (y["vx"] < 0.08) or 0.05 < y["vx"] < 0.3
    elif fam == "pedestrian":
        rng = dict(vx=p.vx_limits)
    elif fam == "spacecraft":
        rng = dict(dpsi=p.dpsi_limits)
    elif fam in ("spaceship", "rocket"):
        rng = {("delta" if fam == "spaceship" else "phi"): p.delta_limits, "m": (p.m_v, 1e9)}
    elif fam == "dyn_obstacle":
        rng = dict(vx=p.vx_limits, vy=p.vx_limits, dpsi=p.dpsi_limits)
        sat = lambda s: [abs(a) for a in (case["u"]["acc_x"] + s["dpsi"] * s["vy"], case["u"]["acc_y"] - s["dpsi"] * s["vx"])]
        lim = min(abs(v) for v in p.acc_limits)
        out = max(sat(x) + sat(y)) > 0.9 * lim
    else:
        rng = {}
    d0 = refdyn.deriv(m, fam, x, case["u"])
    for k, (lo, hi) in rng.items():
        eps = 1e-3 * (1 + abs(lo)) if lo != p.vx_limits[0] else 1e-3
        move = abs(d0[k]) * case["dt"] * 1.5 + 1e-6
        for b in (lo, hi):
            if abs(b) < 1e8 and (min(x[k], y[k]) - move <= b <= max(x[k], y[k]) + move) and (abs(d0[k]) > 0 or abs(y[k] - b) > eps):
                out = True
    return out


def yaw_motion(m, case):
    d = refdyn.deriv(m, case["fam"], case["x"], case["u"])
    return abs(d["psi"]) * case["dt"]


@subtest(P, lambda: model_cmd_case(over=1.5, span=3.0, dts=(0.01, 0.02, 0.05, 0.1, 0.0125, 0.0375, 0.7, 1.5)), quick=1800, shards=4, need=tuple(FAMILIES))
def update_integrates(case):
    fam, dt = case["fam"], case["dt"]
    m = mk_model(case)
    u = mk_cmd(fam, case["u"])
    if yaw_motion(m, case) > 0.5:
        return None
    ref = refdyn.integrate(m, fam, case["x"], case["u"], dt)
    if switches(m, case, ref):
        return None
    s0 = m.get_state()
    before = svec(fam, s0).tolist()
    m.update(u, D(str(dt)))
    got = sdict(fam, m.get_state())
    tol = tolerance(m, case, ref)
    for k in STATES[fam][1]:
        ensure(abs(got[k] - ref[k]) <= tol[k], f"{k} of {fam} after one step", got=got[k], expected=ref[k], tol=tol[k], state=case["x"])
    ensure(svec(fam, s0).tolist() == before, "a state handed out earlier was changed by update()")
    ensure(cvec(fam, u).tolist() == [case["u"][k] for k in COMMANDS[fam][1]], "the command was changed by update()")
    ensure(type(m.get_state()) is STATES[fam][0], "type of the new state")
    moved = max(abs(ref[k] - case["x"][k]) for k in ref)
    return fam if moved > 1e-3 else None


@subtest(P, lambda: model_cmd_case(over=1.5), quick=400, need=tuple(FAMILIES))
def zero_step(case):
    fam = case["fam"]
    m = mk_model(case)
    m.update(mk_cmd(fam, case["u"]), D("0"))
    ensure_close(svec(fam, m.get_state()), [case["x"][k] for k in STATES[fam][1]], "a zero step changed the state", rtol=1e-12, atol=1e-12)
    return fam


@subtest(P, lambda: model_cmd_case(over=1.0, span=3.0, dts=(0.02, 0.05, 0.1)), quick=600, need=tuple(FAMILIES), shards=2)
def two_halves_make_a_whole(case):
    fam, dt = case["fam"], case["dt"]
    m1, m2 = mk_model(case), mk_model(case)
    if yaw_motion(m1, case) > 0.5:
        return None
    ref = refdyn.integrate(m1, fam, case["x"], case["u"], dt)
    if switches(m1, case, ref):
        return None
    u = mk_cmd(fam, case["u"])
    m1.update(u, D(str(dt)))
    m2.update(u, D(str(dt)) / 2)
    m2.update(u, D(str(dt)) / 2)
    tol = tolerance(m1, case, ref)
    a, b = sdict(fam, m1.get_state()), sdict(fam, m2.get_state())
    for k in STATES[fam][1]:
        ensure(abs(a[k] - b[k]) <= 2 * tol[k], f"{k}: two half steps differ from one step", one=a[k], two=b[k], tol=tol[k])
    return fam if max(abs(ref[k] - case["x"][k]) for k in ref) > 1e-3 else None


def transformed(fam, x, q):
    """The same physical situation seen from a frame moved by q=(tx,ty,theta)."""
    c, s = math.cos(q[2]), math.sin(q[2])
    y = dict(x)
    y["x"], y["y"] = q[0] + c * x["x"] - s * x["y"], q[1] + s * x["x"] + c * x["y"]
    y["psi"] = x["psi"] + q[2]
    if fam == "rocket":  # its velocities are expressed in the global frame
        y["vx"], y["vy"] = c * x["vx"] - s * x["vy"], s * x["vx"] + c * x["vy"]
    return y


@st.composite
def equi(draw):
    c = draw(model_cmd_case(over=1.5, span=3.0, dts=(0.02, 0.05, 0.1)))
    c["q"] = [draw(nice(-3.0, 3.0)), draw(nice(-3.0, 3.0)), draw(BIG_ANGLE)]
    return c


@subtest(P, equi, quick=1200, need=tuple(FAMILIES), shards=2)
def frame_equivariance(case):
    fam = case["fam"]
    m = mk_model(case)
    d = m.dynamics(mk_state(fam, case["x"]), mk_cmd(fam, case["u"]))
    xt = transformed(fam, case["x"], case["q"])
    dt_ = m.dynamics(mk_state(fam, xt), mk_cmd(fam, case["u"]))
    exp = transformed(fam, sdict(fam, d), [0.0, 0.0, case["q"][2]])
    exp["psi"] = sdict(fam, d)["psi"]
    for k in STATES[fam][1]:
        ensure_close(getattr(dt_, k), exp[k], f"derivative of {k} ({fam}) is not frame independent", rtol=1e-8, atol=1e-8)
    return fam if abs(case["q"][2]) > 0.1 else None


MIRROR = {  # components which change sign under a reflection about the x axis
    "vehicle": (["y", "psi", "delta"], {"ddelta": "-ddelta"}),
    "vehicle_dyn": (["y", "psi", "delta", "vy", "dpsi"], {"ddelta": "-ddelta"}),
    "pedestrian": (["y", "psi", "vy", "dpsi"], {"dpsi": "-dpsi"}),
    "diff_drive": (["y", "psi"], {"omega_l": "omega_r", "omega_r": "omega_l"}),
    "spacecraft": (["y", "psi", "vy", "dpsi"], {"acc_left": "acc_right", "acc_right": "acc_left"}),
    "spaceship": (["y", "psi", "vy", "dpsi", "delta"], {"ddelta": "-ddelta"}),
    "rocket": (["y", "psi", "vy", "dpsi"], {"F_left": "F_right", "F_right": "F_left"}),
    "dyn_obstacle": (["y", "psi", "vy", "dpsi"], {"acc_y": "-acc_y", "acc_psi": "-acc_psi"}),
}


def symmetric_limits(case):
    p = mk_params(case["fam"], case["kind"], case["p"])
    fam = case["fam"]
    if fam == "spacecraft":
        return p.dpsi_limits[0] == -p.dpsi_limits[1]
    if fam == "spaceship":
        return p.delta_limits[0] == -p.delta_limits[1] and p.ddelta_limits[0] == -p.ddelta_limits[1]
    if fam == "dyn_obstacle":
        return False  # the lateral limits are the (asymmetric) longitudinal ones
    return True


@subtest(P, lambda: model_cmd_case(over=1.5, span=3.0), quick=800, need=("vehicle", "vehicle_dyn", "pedestrian", "diff_drive", "rocket"))
def mirror_symmetry(case):
    fam = case["fam"]
    flip, cm = MIRROR[fam]
    if not symmetric_limits(case):
        return None
    m = mk_model(case)
    d = sdict(fam, m.dynamics(mk_state(fam, case["x"]), mk_cmd(fam, case["u"])))
    x2 = {k: -v if k in flip else v for k, v in case["x"].items()}
    u2 = dict(case["u"])
    for k, src in cm.items():
        u2[k] = -case["u"][src[1:]] if src.startswith("-") else case["u"][src]
    d2 = sdict(fam, m.dynamics(mk_state(fam, x2), mk_cmd(fam, u2)))
    for k in d:
        ensure_close(d2[k], -d[k] if k in flip else d[k], f"mirrored derivative of {k} ({fam})", rtol=1e-9, atol=1e-9)
    return fam


@subtest(P, lambda: st.tuples(fl(0.5, 20), fl(0.8, 2.5), fl(0.3, 1.2), fl(0.0, 0.99), fl(-1.5, 1.5)), quick=800)
def tyre_curve(case):
    B, C, Dm, E, slip = case
    for tyre in (Pacejka(B, C, Dm), Pacejka4p(B, C, Dm, E)):
        f = tyre.evaluate(slip)
        ensure_close(f, refdyn.pacejka(tyre, slip), "tyre force", rtol=1e-10, atol=1e-12)
        ensure(abs(f) <= Dm * (1 + 1e-12), "tyre force beyond the peak", f=f)
        ensure_close(tyre.evaluate(-slip), -f, "odd symmetry", atol=1e-12)
    return "slip" if slip else None


@st.composite
def bike(draw):
    c = draw(model_cmd_case(fams=("vehicle",), span=3.0, over=1.5, dts=(0.01, 0.02, 0.05)))
    return c


@subtest(P, bike, quick=700, need=("inside", "limited"))
def planning_dynamics_agree(case):
    """The planner's bicycle dynamics is the forward-Euler step / the integral of the same kinematic model."""
    m = mk_model(case)
    p = m.vp
    bd = BicycleDynamics(vg=m.vg, vp=p)
    s, u = mk_state("vehicle", case["x"]), mk_cmd("vehicle", case["u"])
    dt = case["dt"]
    acc = refdyn.clip(case["u"]["acc"], *p.acc_limits)
    dd = refdyn.clip(case["u"]["ddelta"], -p.ddelta_max, p.ddelta_max)
    x = case["x"]
    yaw = x["vx"] * math.tan(x["delta"]) / (m.vg.lf + m.vg.lr)
    dx, dy = refdyn.body_to_world(x["psi"], x["vx"], yaw * m.vg.lr)
    exp = dict(x=x["x"] + dx * dt, y=x["y"] + dy * dt, psi=x["psi"] + yaw * dt, vx=refdyn.clip(x["vx"] + acc * dt, *p.vx_limits),
               delta=refdyn.clip(x["delta"] + dd * dt, -p.delta_max, p.delta_max))
    n = bd.successor(s, u, D(str(dt)))
    for k in exp:
        ensure_close(getattr(n, k), exp[k], f"successor {k}", rtol=1e-9, atol=1e-9)
    ensure(sdict("vehicle", s) == {k: float(v) for k, v in x.items()} and cvec("vehicle", u).tolist() == list(case["u"].values()), "successor altered its inputs")
    inside = acc == case["u"]["acc"] and dd == case["u"]["ddelta"]
    if inside and abs(yaw) * dt < 0.5 and abs(x["delta"]) < 1.2:
        n2 = bd.successor_ivp(s, u, D(str(dt)))
        free = dict(acc=acc, ddelta=dd)
        big = copy.copy(m)
        big.vp = type(p)(vx_limits=(-1e9, 1e9), acc_limits=p.acc_limits, delta_max=1e9, ddelta_max=p.ddelta_max)
        ref = refdyn.integrate(big, "vehicle", x, free, dt)
        for k in ref:
            ensure(abs(getattr(n2, k) - ref[k]) <= 2e-5 + 4e-3 + 1e-2 * abs(ref[k] - x[k]), f"successor_ivp {k}", got=getattr(n2, k), expected=ref[k])
        ensure(sdict("vehicle", s) == {k: float(v) for k, v in x.items()}, "successor_ivp altered its inputs")
        return "inside"
    return "limited" if not inside else None
